//! C24: pages which are asked from other nodes, with a real HTTP server behind them.

use crate::fw::{take_panics, Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::broker::Broker;
use flarch::data_storage::DataStorageTemp;
use flarch::nodeids::{NodeID, NodeIDs};
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::router::broker::BrokerRouter;
use flmodules::router::messages::{NetworkWrapper, RouterIn, RouterOut};
use flmodules::web_proxy::broker::WebProxy;
use flmodules::web_proxy::core::WebProxyConfig;
use flmodules::Modules;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::{sleep, timeout};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Framing {
    Length,
    Chunked,
    Close,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    None,
    /// The server goes away after this part of the pieces
    Abort(u8),
    /// Nobody listens there
    Refused,
    BadUrl(u8),
    /// No HTTP
    Garbage,
    /// The caller isn't interested anymore after this number of chunks
    Dropped(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Req {
    from: u8,
    after_ms: u8,
    status: u16,
    headers: Vec<(String, Vec<u8>)>,
    /// Length, first byte, and the pause in ms before
    pieces: Vec<(u16, u8, u8)>,
    framing: Framing,
    fault: Fault,
    query: String,
    /// The caller waits between two chunks
    slow: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    /// Which nodes accept requests
    nodes: Vec<bool>,
    reqs: Vec<Req>,
    /// The messages are slowed down by these numbers of ms
    jitter: Vec<u8>,
    /// Disconnects two nodes after so many messages between them
    cut: Option<(u8, u8, u8)>,
    /// Threads the nodes share
    workers: u8,
}

fn header() -> impl Strategy<Value = (String, Vec<u8>)> {
    let value = prop_oneof![
        4 => "[ -~]{0,20}".prop_map(|s| s.trim().as_bytes().to_vec()),
        1 => "[a-zé\u{85}\u{2028}☃😀]{1,6}".prop_map(|s| s.into_bytes()),
        1 => prop::collection::vec(prop_oneof![Just(9u8), 32u8..=126, 128u8..=255], 1..8),
        1 => prop::sample::select(vec!["true", "~", "null", "1", "'", "\"", "- a", "a: b", "#", "!!x"]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    (
        prop_oneof!["[Xx]-[a-c]", "[A-Za-z][A-Za-z0-9!#$%&'*+.^_`|~-]{0,12}", Just("Set-Cookie".to_string())],
        value,
    )
        .prop_map(|(n, mut v)| {
            while v.first().is_some_and(|b| *b == 9 || *b == 32) {
                v.remove(0);
            }
            while v.last().is_some_and(|b| *b == 9 || *b == 32) {
                v.pop();
            }
            (n, v)
        })
        .prop_filter("framing", |(n, _)| {
            let n = n.to_lowercase();
            !["content-length", "transfer-encoding", "connection", "location", "te", "trailer", "upgrade"].contains(&n.as_str())
        })
}

fn req(fault: BoxedStrategy<Fault>) -> impl Strategy<Value = Req> {
    (
        (any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 0u8..20]),
        prop_oneof![4 => Just(200u16), 2 => prop::sample::select(vec![201u16, 203, 301, 302, 400, 404, 418, 500, 503, 599]), 1 => 206u16..300, 2 => 400u16..600],
        prop::collection::vec(header(), 0..8),
        prop_oneof![
            3 => prop::collection::vec((0u16..300, any::<u8>(), prop_oneof![6 => Just(0u8), 1 => 1u8..4]), 0..12),
            1 => prop::collection::vec((1u16..30, any::<u8>(), Just(0u8)), 130..400),
            1 => prop::collection::vec((any::<u16>(), any::<u8>(), Just(0u8)), 1..6),
        ],
        prop_oneof![Just(Framing::Length), Just(Framing::Chunked), Just(Framing::Close)],
        fault,
        "[a-z0-9%&=é☃'\" :#+-]{0,12}",
        prop::bool::weighted(0.2),
    )
        .prop_map(|((from, after_ms), status, headers, pieces, framing, fault, query, slow)| Req {
            from,
            after_ms,
            status,
            headers,
            pieces,
            framing,
            fault,
            query,
            slow,
        })
}

fn strat(faults: bool) -> BoxedStrategy<In> {
    let fault = if faults {
        prop_oneof![
            2 => Just(Fault::None),
            3 => any::<u8>().prop_map(Fault::Abort),
            1 => Just(Fault::Refused),
            1 => any::<u8>().prop_map(Fault::BadUrl),
            1 => Just(Fault::Garbage),
            2 => (0u8..5).prop_map(Fault::Dropped),
        ]
        .boxed()
    } else {
        Just(Fault::None).boxed()
    };
    (
        prop_oneof![
            1 => prop::collection::vec(any::<bool>(), 1..6),
            40 => prop::collection::vec(prop::bool::weighted(0.8), 2..6).prop_map(|mut v| {
                v[0] = true;
                v[1] = true;
                v
            }),
        ],
        prop::collection::vec(req(fault), 1..10),
        prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 0u8..4], 1..8),
        if faults { prop::option::weighted(0.4, (any::<u8>(), any::<u8>(), 0u8..12)).boxed() } else { Just(None).boxed() },
        1u8..4,
    )
        .prop_map(|(nodes, reqs, jitter, cut, workers)| In { nodes, reqs, jitter, cut, workers })
        .boxed()
}

impl Req {
    fn body_of(pieces: &[(u16, u8, u8)]) -> Vec<u8> {
        pieces.iter().flat_map(|p| Self::piece(*p)).collect()
    }

    fn piece((len, first, _): (u16, u8, u8)) -> Vec<u8> {
        (0..len as u32).map(|i| first.wrapping_add((i % 251) as u8)).collect()
    }

    fn has_body(&self) -> bool {
        self.status != 204 && self.status != 304
    }

    fn body(&self) -> Vec<u8> {
        if self.has_body() {
            Self::body_of(&self.pieces)
        } else {
            vec![]
        }
    }

    /// Whether the page must arrive as it is
    fn good(&self) -> bool {
        self.fault == Fault::None
    }

    async fn serve(&self, mut s: TcpStream) -> Option<()> {
        let _ = s.set_nodelay(true);
        if self.fault == Fault::Garbage {
            s.write_all(b"\x00\x01garbage\r\n\r\n").await.ok()?;
            return None;
        }
        let mut h = format!("HTTP/1.1 {} Whatever\r\n", self.status).into_bytes();
        for (n, v) in &self.headers {
            h.extend(n.as_bytes());
            h.extend(b": ");
            h.extend(v);
            h.extend(b"\r\n");
        }
        if self.has_body() {
            match self.framing {
                Framing::Length => h.extend(format!("Content-Length: {}\r\n", self.body().len()).as_bytes()),
                Framing::Chunked => h.extend(b"Transfer-Encoding: chunked\r\n"),
                Framing::Close => {}
            }
        }
        h.extend(b"Connection: close\r\n\r\n");
        let abort = match self.fault {
            Fault::Abort(n) => n as usize * (self.pieces.len() + 1) / 256,
            _ => usize::MAX,
        };
        s.write_all(&h).await.ok()?;
        if self.has_body() {
            for (i, p) in self.pieces.iter().enumerate() {
                if i == abort {
                    return None;
                }
                if p.2 > 0 {
                    sleep(Duration::from_millis(p.2 as u64)).await;
                }
                let mut b = Self::piece(*p);
                if self.framing == Framing::Chunked && !b.is_empty() {
                    let mut c = format!("{:x}\r\n", b.len()).into_bytes();
                    c.append(&mut b);
                    c.extend(b"\r\n");
                    b = c;
                }
                s.write_all(&b).await.ok()?;
            }
            if self.framing == Framing::Chunked && abort == usize::MAX {
                s.write_all(b"0\r\n\r\n").await.ok()?;
            }
        }
        s.shutdown().await.ok()?;
        // The kernel would reset the connection if something is still to be read
        let mut rest = vec![];
        let _ = timeout(Duration::from_secs(1), s.read_to_end(&mut rest)).await;
        None
    }
}

/// Serves /NUMBER, and counts how many times it was asked.
async fn server(l: TcpListener, reqs: Vec<Req>, asked: Arc<Mutex<BTreeMap<usize, u32>>>) {
    while let Ok((mut s, _)) = l.accept().await {
        let (reqs, asked) = (reqs.clone(), asked.clone());
        tokio::spawn(async move {
            let mut buf = vec![];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                let mut b = [0; 1024];
                match s.read(&mut b).await {
                    Ok(n) if n > 0 => buf.extend(&b[..n]),
                    _ => return,
                }
            }
            let line = String::from_utf8_lossy(&buf).to_string();
            let n = line
                .strip_prefix("GET /")
                .and_then(|l| l.split(['?', ' ']).next())
                .and_then(|n| n.parse::<usize>().ok());
            if let Some(r) = n.and_then(|n| reqs.get(n)) {
                *asked.lock().unwrap().entry(n.unwrap()).or_default() += 1;
                r.serve(s).await;
            }
        });
    }
}

struct N {
    id: NodeID,
    info: NodeInfo,
    router: BrokerRouter,
    proxy: WebProxy,
}

struct Net {
    nodes: Vec<(NodeID, BrokerRouter)>,
    infos: Vec<NodeInfo>,
    /// Counts the messages between the two nodes which will be cut
    cut: Option<(usize, usize, u8)>,
    is_cut: bool,
}

impl Net {
    fn lists(&mut self, i: usize) {
        let gone = self.cut.filter(|_| self.is_cut).and_then(|(a, b, _)| (i == a).then_some(b).or((i == b).then_some(a)));
        let infos: Vec<NodeInfo> =
            self.infos.iter().enumerate().filter(|(j, _)| *j != i && Some(*j) != gone).map(|(_, n)| n.clone()).collect();
        let r = &mut self.nodes[i].1;
        let ids: Vec<NodeID> = infos.iter().map(|n| n.get_id()).collect();
        r.emit_msg_out(RouterOut::NodeIDsConnected(NodeIDs(ids))).unwrap();
        r.emit_msg_out(RouterOut::NodeInfosConnected(infos)).unwrap();
    }

    fn deliver(&mut self, src: usize, dst: NodeID, nw: NetworkWrapper) {
        let Some(d) = self.nodes.iter().position(|n| n.0 == dst) else {
            return;
        };
        if let Some((a, b, left)) = self.cut.as_mut() {
            if (src, d) == (*a, *b) || (src, d) == (*b, *a) {
                if self.is_cut {
                    return;
                }
                if *left == 0 {
                    self.is_cut = true;
                    let (a, b) = (*a, *b);
                    self.lists(a);
                    self.lists(b);
                    return;
                }
                *left -= 1;
            }
        }
        let src = self.nodes[src].0;
        self.nodes[d].1.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(src, nw)).unwrap();
    }
}

/// What the caller got
#[derive(Debug)]
enum Got {
    Err(String),
    Page { proxy: NodeID, status: u16, headers: HashMap<String, Vec<String>>, body: Vec<u8> },
    Hangs(&'static str),
    Dropped,
}

const LONG: Duration = Duration::from_secs(12);

async fn fetch(mut p: WebProxy, r: Req, url: String) -> Got {
    sleep(Duration::from_millis(r.after_ms as u64)).await;
    match timeout(LONG, p.get(&url)).await {
        Err(_) => Got::Hangs("no answer"),
        Ok(Err(e)) => Got::Err(e.to_string()),
        Ok(Ok(mut res)) => {
            let h = res.headers();
            let mut body = vec![];
            let mut n = 0;
            loop {
                if r.fault == Fault::Dropped(n) {
                    return Got::Dropped;
                }
                n = n.saturating_add(1);
                match timeout(LONG, res.chunk()).await {
                    Err(_) => return Got::Hangs("the page doesn't end"),
                    Ok(None) => break,
                    Ok(Some(b)) => body.extend(b),
                }
                if r.slow {
                    sleep(Duration::from_micros(300)).await;
                }
            }
            Got::Page { proxy: res.proxy(), status: h.status.code, headers: h.headers, body }
        }
    }
}

async fn run_case(x: &In, c: &mut Case) -> TestResult {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let port = l.local_addr().unwrap().port();
    let refused = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let closed_port = refused.local_addr().unwrap().port();
    drop(refused);
    let asked: Arc<Mutex<BTreeMap<usize, u32>>> = Arc::default();
    let srv = tokio::spawn(server(l, x.reqs.clone(), asked.clone()));

    let mut nodes = vec![];
    for (i, accept) in x.nodes.iter().enumerate() {
        let mut info = NodeConfig::new().info;
        info.name = format!("n{i}");
        info.modules.set(Modules::WEBPROXY_REQUESTS, *accept);
        let id = info.get_id();
        let router: BrokerRouter = Broker::new();
        let proxy = WebProxy::start(Box::new(DataStorageTemp::new()), id, router.clone(), WebProxyConfig::default()).await.unwrap();
        nodes.push(N { id, info, router, proxy });
    }
    let n = nodes.len();
    let net = Arc::new(Mutex::new(Net {
        nodes: nodes.iter().map(|n| (n.id, n.router.clone())).collect(),
        infos: nodes.iter().map(|n| n.info.clone()).collect(),
        cut: x.cut.map(|(a, b, k)| (a as usize % n, (a as usize + 1 + b as usize % n.max(2)) % n, k)).filter(|(a, b, _)| a != b),
        is_cut: false,
    }));
    let mut tasks = vec![srv];
    for (i, nd) in nodes.iter_mut().enumerate() {
        let (mut tap, _) = nd.router.get_tap_in().await.unwrap();
        let (net, jitter) = (net.clone(), x.jitter.clone());
        tasks.push(tokio::spawn(async move {
            let mut k = i;
            while let Some(RouterIn::NetworkWrapperToNetwork(dst, nw)) = tap.recv().await {
                k += 1;
                let j = jitter[k % jitter.len()];
                if j > 0 && k < 60 {
                    sleep(Duration::from_millis(j as u64)).await;
                }
                net.lock().unwrap().deliver(i, dst, nw);
            }
        }));
    }
    for i in 0..n {
        net.lock().unwrap().lists(i);
        nodes[i].router.settle(vec![]).await.unwrap();
    }

    let mut calls = vec![];
    for (i, r) in x.reqs.iter().enumerate() {
        let url = match &r.fault {
            Fault::Refused => format!("http://127.0.0.1:{closed_port}/{i}"),
            Fault::BadUrl(k) => ["", "nothing", "http://", "ftp://127.0.0.1/", "http://[", "-", "'", "http://127.0.0.1:99999/"][*k as usize % 8].to_string(),
            _ => format!("http://127.0.0.1:{port}/{i}?{}", r.query),
        };
        let from = r.from as usize % n;
        calls.push((from, tokio::spawn(fetch(nodes[from].proxy.clone(), r.clone(), url))));
    }
    let mut got = vec![];
    for (from, t) in calls {
        got.push((from, t.await.map_err(|e| format!("asking for a page: {e}"))?));
    }
    for t in tasks {
        t.abort();
    }
    let cut = {
        let net = net.lock().unwrap();
        net.cut.filter(|_| net.is_cut).map(|(a, b, _)| [a, b])
    };
    let mut by_proxy: BTreeMap<usize, BTreeMap<NodeID, usize>> = BTreeMap::new();
    for (i, (from, g)) in got.into_iter().enumerate() {
        let r = &x.reqs[i];
        let others: BTreeSet<NodeID> =
            nodes.iter().enumerate().filter(|(j, _)| *j != from && x.nodes[*j]).map(|(_, n)| n.id).collect();
        let disturbed = cut.is_some_and(|c| c.contains(&from));
        if let Got::Hangs(s) = g {
            return Err(format!("request {i} ({:?}) hangs: {s}", r.fault));
        }
        let hits = asked.lock().unwrap().get(&i).copied().unwrap_or(0);
        if others.is_empty() {
            ensure!(matches!(g, Got::Err(_)), "there is no node which accepts requests, but request {i} got {g:?}");
            ensure_eq!(hits, 0, "the page of request {i} was asked for without a node to do it");
            c.label("no node");
            continue;
        }
        match g {
            Got::Hangs(_) => {}
            Got::Dropped => c.label("dropped"),
            Got::Err(e) => {
                ensure!(
                    disturbed || matches!(r.fault, Fault::Abort(_) | Fault::Refused | Fault::BadUrl(_) | Fault::Garbage),
                    "request {i} ({:?}) fails with '{e}'", r.fault
                );
                c.label("error");
            }
            Got::Page { proxy, status, headers, body } => {
                ensure!(others.contains(&proxy), "request {i} was answered by a node which doesn't accept requests");
                ensure!(
                    !matches!(r.fault, Fault::Refused | Fault::BadUrl(_) | Fault::Garbage),
                    "request {i} got a page without there being one"
                );
                ensure_eq!(hits, 1, "number of times the page of request {i} was asked from the server");
                *by_proxy.entry(from).or_default().entry(proxy).or_default() += 1;
                ensure_eq!(status, r.status, "status of request {i}");
                let mut want: HashMap<String, Vec<String>> = HashMap::new();
                for (k, v) in &r.headers {
                    want.entry(k.to_lowercase()).or_default().push(String::from_utf8_lossy(v).to_string());
                }
                for (k, v) in &want {
                    ensure_eq!(headers.get(k), Some(v), "header {k} of request {i}");
                }
                let added: Vec<&String> = headers
                    .keys()
                    .filter(|k| !want.contains_key(*k) && !["connection", "content-length", "transfer-encoding"].contains(&k.as_str()))
                    .collect();
                ensure!(added.is_empty(), "request {i} got headers which weren't sent: {added:?}");
                let whole = r.body();
                if r.good() && !disturbed {
                    ensure!(
                        body == whole,
                        "the page of request {i} with {} bytes arrives with {} bytes, equal up to {:?}",
                        whole.len(), body.len(), body.iter().zip(&whole).position(|(a, b)| a != b)
                    );
                } else {
                    ensure!(whole.starts_with(&body), "the page of request {i} isn't the beginning of what the server sent");
                    c.label("part of a page");
                }
                c.count("pages", 1);
                c.count("bytes", body.len() as u64);
                c.nontrivial(!body.is_empty());
            }
        }
    }
    let all_good = x.reqs.iter().all(|r| r.good()) && x.cut.is_none();
    if all_good {
        for (from, m) in &by_proxy {
            let accept = x.nodes.iter().enumerate().filter(|(j, a)| j != from && **a).count();
            let (min, max) = (
                if m.len() < accept { 0 } else { m.values().min().copied().unwrap_or(0) },
                m.values().max().copied().unwrap_or(0),
            );
            ensure!(max - min <= 1, "one node was asked {max} times, another one {min} times");
        }
    }
    Ok(())
}

fn run_proxy_case(x: &In, c: &mut Case) -> TestResult {
    let mut res = Ok(());
    // Real time passes in here, so an error must come up again.
    for _ in 0..3 {
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(x.workers.clamp(1, 4) as usize)
            .enable_all()
            .build()
            .unwrap();
        res = rt.block_on(run_case(x, c));
        rt.shutdown_background();
        take_panics();
        match &res {
            Err(e) if e.contains("imeout") || e.contains("hangs") => {}
            _ => break,
        }
    }
    res
}

pub fn run_proxy(ctx: &mut Ctx) {
    std::env::set_var("NO_PROXY", "*");
    ctx.sub(
        Spec {
            name: "pages",
            rule: "up to ten pages asked at the same time by up to five nodes, from a real HTTP server; non-trivial: a page with a body arrived",
            quick: 1500,
            thorough: 30_000,
            max_s: 60,
        },
        vec![],
        || strat(false),
        run_proxy_case,
    );
    ctx.sub(
        Spec {
            name: "faults",
            rule: "the same, with servers which fail or aren't there, nodes disconnecting, and callers not reading on; non-trivial: a page with a body arrived",
            quick: 300,
            thorough: 6000,
            max_s: 60,
        },
        vec![],
        || strat(true),
        run_proxy_case,
    );
}
