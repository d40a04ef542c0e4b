//! P01: pages fetched through other nodes, from a real HTTP server over the loopback interface.
use std::{
    collections::{BTreeMap, HashMap},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use bytes::Bytes;
use flarch::{
    broker::Broker,
    data_storage::DataStorageTemp,
    nodeids::{NodeID, U256},
};
use flmodules::{
    nodeconfig::{NodeConfig, NodeInfo},
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    web_proxy::{
        broker::{WebProxy, WebProxyIn, WebProxyOut},
        core::WebProxyConfig,
        response::{ResponseHeader, ResponseMessage, ResponseStatus},
    },
    Modules,
};
use mon::{
    drive, main_with, rt_multi,
    util::{pick, rnd_bytes, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    sync::mpsc::channel,
};

type Bad = (String, Value);
const MODULE: &str = "WebProxy";

/// The messages between the nodes.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Wire {
    Request(U256, String),
    Response(U256, ResponseMessage),
}

fn wrap(w: &Wire) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, w).unwrap()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Length,
    Chunked,
    UntilClose,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// The body stops too early.
    Truncated,
    /// The connection is closed without an answer.
    NoAnswer,
    /// Nothing ever comes.
    Hang,
    /// What comes isn't HTTP.
    Junk,
}

#[derive(Clone)]
struct Script {
    status: u16,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
    parts: Vec<usize>,
    pause_ms: u64,
    late_ms: u64,
    mode: Mode,
    fault: Fault,
}

impl Script {
    fn new(rng: &mut StdRng, text: bool) -> Self {
        let len = match rng.gen_range(0..20) {
            0 | 1 => 0,
            2..=12 => rng.gen_range(1..3000),
            13..=18 => rng.gen_range(3000..100_000),
            _ => rng.gen_range(100_000..600_000),
        };
        let mut body = if text {
            rnd_string(rng, len / 2).into_bytes()
        } else {
            rnd_bytes(rng, len)
        };
        let status = *pick(
            rng,
            &[
                200, 200, 200, 200, 201, 203, 204, 206, 400, 401, 403, 404, 410, 418, 429, 500, 503,
            ],
        );
        if status == 204 {
            body.clear();
        }
        let mut headers = vec![];
        for _ in 0..rng.gen_range(0..8) {
            let name = format!("X-{}", *pick(rng, &["A", "b", "Long-Name", "C1", "d_e"]));
            let value = match rng.gen_range(0..10) {
                8 => format!("\"{:x}\"", rng.gen::<u64>()).into_bytes(),
                9 => b"W/\"a b\",  'c';=%20&amp;,".to_vec(),
                0 => vec![],
                1 => vec![b'c', b'a', b'f', 0xe9],
                2 => "größe=1; „x“".as_bytes().to_vec(),
                3 => vec![b'v'; rng.gen_range(1..2000)],
                _ => format!("{:x}, \"q\" : {{}} #", rng.gen::<u64>()).into_bytes(),
            };
            headers.push((name, value));
        }
        let mut parts = vec![];
        let mut left = body.len();
        let max = (body.len() / *pick(rng, &[1, 2, 10, 60, 600])).max(1);
        while left > 0 {
            let n = rng.gen_range(1..=max).min(left);
            parts.push(n);
            left -= n;
        }
        let fault = match rng.gen_range(0..30) {
            0 | 1 if body.len() > 1 => Fault::Truncated,
            2 => Fault::NoAnswer,
            3 => Fault::Hang,
            4 => Fault::Junk,
            _ => Fault::None,
        };
        let mode = if fault == Fault::Truncated {
            *pick(rng, &[Mode::Length, Mode::Chunked])
        } else {
            *pick(
                rng,
                &[Mode::Length, Mode::Chunked, Mode::Chunked, Mode::UntilClose],
            )
        };
        let pause_ms = match parts.len() {
            // Longer than any timeout which is only meant for the start
            2..=40 if rng.gen_bool(0.05) => 6500 / parts.len() as u64,
            0..=40 if rng.gen_bool(0.3) => rng.gen_range(1..20),
            _ => 0,
        };
        let late_ms = if rng.gen_bool(0.06) {
            rng.gen_range(100..3000)
        } else {
            0
        };
        Self {
            status,
            headers,
            body,
            parts,
            pause_ms,
            late_ms,
            mode: if status == 204 {
                Mode::UntilClose
            } else {
                mode
            },
            fault,
        }
    }

    fn header_map(&self) -> BTreeMap<String, Vec<Vec<u8>>> {
        let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (k, v) in &self.headers {
            m.entry(k.to_lowercase()).or_default().push(v.clone());
        }
        m
    }

    fn info(&self) -> Value {
        json!({"status": self.status, "len": self.body.len(), "parts": self.parts.len(), "pause_ms": self.pause_ms, "late_ms": self.late_ms, "mode": format!("{:?}", self.mode),
            "fault": format!("{:?}", self.fault), "headers": self.headers.iter().map(|(k, v)| format!("{k}: {}", String::from_utf8_lossy(v).chars().take(30).collect::<String>())).collect::<Vec<_>>()})
    }
}

/// What happened to a page, with the time since its start.
#[derive(Default, Clone)]
struct Trace {
    start: Option<Instant>,
    asked: Vec<(NodeID, NodeID, Instant)>,
    served: u32,
    served_at: Option<Instant>,
    header_at: Option<Instant>,
    parts: u64,
}

#[derive(Default)]
struct Log {
    traces: Mutex<HashMap<usize, Trace>>,
    nonces: Mutex<HashMap<U256, (usize, NodeID)>>,
    bad: Mutex<Vec<Bad>>,
    gap_ms: AtomicU64,
}

impl Log {
    fn trace(&self, n: usize, f: impl FnOnce(&mut Trace)) {
        f(self.traces.lock().unwrap().entry(n).or_default())
    }
    fn bad(&self, s: &str, v: Value) {
        self.bad.lock().unwrap().push((s.into(), v));
    }
}

type Scripts = Arc<Mutex<Vec<Script>>>;

fn page_of(url: &str) -> Option<usize> {
    url.rsplit('/').next()?.split('?').next()?.parse().ok()
}

async fn serve(mut s: TcpStream, scripts: Scripts, log: Arc<Log>) -> Option<()> {
    let mut head = vec![];
    let mut buf = [0u8; 4096];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = s.read(&mut buf).await.ok()?;
        if n == 0 || head.len() > 100_000 {
            return None;
        }
        head.extend(&buf[..n]);
    }
    let line = String::from_utf8_lossy(&head).lines().next()?.to_string();
    let mut words = line.split(' ');
    if words.next()? != "GET" {
        log.bad("not-a-get", json!({"line": line}));
    }
    let n = page_of(words.next()?)?;
    let sc = scripts.lock().unwrap().get(n)?.clone();
    log.trace(n, |t| {
        t.served += 1;
        t.served_at.get_or_insert(Instant::now());
    });
    match sc.fault {
        Fault::NoAnswer => return None,
        Fault::Hang => {
            tokio::time::sleep(Duration::from_secs(9)).await;
            return None;
        }
        Fault::Junk => {
            let _ = s.write_all(b"220 smtp.example.org ESMTP\r\n\r\n").await;
            return None;
        }
        _ => {}
    }
    if sc.late_ms > 0 {
        tokio::time::sleep(Duration::from_millis(sc.late_ms)).await;
    }
    let mut out = format!("HTTP/1.1 {} Whatever\r\n", sc.status).into_bytes();
    for (k, v) in &sc.headers {
        out.extend(k.as_bytes());
        out.extend(b": ");
        out.extend(v);
        out.extend(b"\r\n");
    }
    match sc.mode {
        Mode::Length => out.extend(format!("Content-Length: {}\r\n", sc.body.len()).as_bytes()),
        Mode::Chunked => out.extend(b"Transfer-Encoding: chunked\r\n"),
        Mode::UntilClose => {}
    }
    out.extend(b"Connection: close\r\n\r\n");
    s.write_all(&out).await.ok()?;
    let mut pos = 0;
    let stop = if sc.fault == Fault::Truncated {
        sc.body.len() * 2 / 3
    } else {
        usize::MAX
    };
    for p in &sc.parts {
        if pos + p > stop {
            s.flush().await.ok()?;
            return None;
        }
        if sc.mode == Mode::Chunked {
            s.write_all(format!("{p:x}\r\n").as_bytes()).await.ok()?;
        }
        s.write_all(&sc.body[pos..pos + p]).await.ok()?;
        if sc.mode == Mode::Chunked {
            s.write_all(b"\r\n").await.ok()?;
        }
        pos += p;
        if sc.pause_ms > 0 {
            s.flush().await.ok()?;
            tokio::time::sleep(Duration::from_millis(sc.pause_ms)).await;
        }
    }
    if sc.mode == Mode::Chunked {
        s.write_all(b"0\r\n\r\n").await.ok()?;
    }
    s.shutdown().await.ok()?;
    // Wait for the other side, so that nothing is lost by a reset.
    let _ = tokio::time::timeout(Duration::from_secs(5), s.read(&mut buf)).await;
    Some(())
}

#[derive(Clone, PartialEq, Debug)]
enum Kind {
    /// A real node
    Real,
    /// Answers at once, by itself
    Instant,
    /// Doesn't offer the service
    Decoy,
}

struct World {
    infos: Vec<NodeInfo>,
    kinds: Vec<Kind>,
    routers: Vec<Option<BrokerRouter>>,
    proxies: Vec<Option<WebProxy>>,
    scripts: Scripts,
    log: Arc<Log>,
    port: u16,
}

/// Passes messages on in order. The nodes in `instant` are played here.
fn hub(
    id: NodeID,
    mut tap: tokio::sync::mpsc::UnboundedReceiver<RouterIn>,
    routers: HashMap<NodeID, BrokerRouter>,
    instant: Vec<NodeID>,
    decoys: Vec<NodeID>,
    scripts: Scripts,
    log: Arc<Log>,
) {
    tokio::spawn(async move {
        let mut routers = routers;
        while let Some(RouterIn::NetworkWrapperToNetwork(dst, nw)) = tap.recv().await {
            let Some(msg) = nw.unwrap_yaml::<Wire>(MODULE) else {
                log.bad(
                    "unreadable-message-sent",
                    json!({"msg": nw.msg.chars().take(80).collect::<String>()}),
                );
                continue;
            };
            match &msg {
                Wire::Request(nonce, url) => {
                    if let Some(n) = page_of(url) {
                        log.nonces.lock().unwrap().insert(*nonce, (n, id));
                        log.trace(n, |t| t.asked.push((id, dst, Instant::now())));
                    }
                    if decoys.contains(&dst) || dst == id {
                        log.bad("wrong-node-asked", json!({"decoy": dst != id}));
                    }
                }
                Wire::Response(nonce, rm) => {
                    let n = log.nonces.lock().unwrap().get(nonce).cloned();
                    match n {
                        Some((_, asker)) if asker != dst => {
                            log.bad("answer-to-wrong-node", json!({}))
                        }
                        Some((n, _)) => log.trace(n, |t| match rm {
                            ResponseMessage::Header(_) => {
                                t.header_at.get_or_insert(Instant::now());
                            }
                            ResponseMessage::Body(_) => t.parts += 1,
                            _ => {}
                        }),
                        None => {}
                    }
                }
            }
            if instant.contains(&dst) {
                let Wire::Request(nonce, url) = msg else {
                    continue;
                };
                let Some(me) = routers.get_mut(&id) else {
                    continue;
                };
                let mut send = |rm: ResponseMessage| {
                    let _ = me.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(
                        dst,
                        wrap(&Wire::Response(nonce, rm)),
                    ));
                };
                let script = page_of(&url)
                    .and_then(|n| scripts.lock().unwrap().get(n).cloned().map(|s| (n, s)));
                let Some((n, sc)) = script else {
                    send(ResponseMessage::Error("no such page".into()));
                    continue;
                };
                match sc.fault {
                    Fault::Hang => continue,
                    Fault::NoAnswer | Fault::Junk => {
                        send(ResponseMessage::Error("refused".into()));
                        continue;
                    }
                    _ => {}
                }
                log.trace(n, |t| {
                    t.served += 1;
                    t.served_at.get_or_insert(Instant::now());
                    t.header_at.get_or_insert(Instant::now());
                    t.parts += sc.parts.len() as u64;
                });
                let headers = sc
                    .header_map()
                    .into_iter()
                    .map(|(k, v)| {
                        (
                            k,
                            v.iter()
                                .map(|v| String::from_utf8_lossy(v).to_string())
                                .collect(),
                        )
                    })
                    .collect();
                send(ResponseMessage::Header(ResponseHeader::new(
                    ResponseStatus {
                        code: sc.status,
                        msg: "".into(),
                    },
                    headers,
                )));
                let mut pos = 0;
                let mut cut = false;
                for p in &sc.parts {
                    if sc.fault == Fault::Truncated && pos + p > sc.body.len() * 2 / 3 {
                        cut = true;
                        break;
                    }
                    send(ResponseMessage::Body(Bytes::from(
                        sc.body[pos..pos + p].to_vec(),
                    )));
                    pos += p;
                }
                if cut {
                    send(ResponseMessage::Error("broken off".into()));
                } else {
                    send(ResponseMessage::Done);
                }
            } else if let Some(r) = routers.get_mut(&dst) {
                let _ = r.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(id, nw));
            }
        }
    });
}

async fn world(rng: &mut StdRng) -> anyhow::Result<World> {
    let listener = TcpListener::bind("127.0.0.1:0").await?;
    let port = listener.local_addr()?.port();
    let scripts: Scripts = Default::default();
    let log = Arc::new(Log::default());
    {
        let (scripts, log) = (scripts.clone(), log.clone());
        tokio::spawn(async move {
            while let Ok((s, _)) = listener.accept().await {
                let _ = s.set_nodelay(true);
                let (scripts, log) = (scripts.clone(), log.clone());
                tokio::spawn(async move {
                    serve(s, scripts, log).await;
                });
            }
        });
    }
    let mut kinds = vec![Kind::Real; rng.gen_range(1..=3)];
    for _ in 0..rng.gen_range(0..=2) {
        kinds.push(Kind::Instant);
    }
    for _ in 0..rng.gen_range(0..=2) {
        kinds.push(Kind::Decoy);
    }
    if kinds.iter().filter(|k| **k != Kind::Decoy).count() < 2 {
        kinds.push(Kind::Real);
    }
    let infos: Vec<NodeInfo> = kinds
        .iter()
        .map(|k| {
            let mut i = NodeConfig::new().info;
            i.modules = if *k == Kind::Decoy {
                Modules::stable() - Modules::WEBPROXY_REQUESTS
            } else {
                *pick(
                    rng,
                    &[
                        Modules::stable(),
                        Modules::all(),
                        Modules::WEBPROXY_REQUESTS,
                    ],
                )
            };
            i
        })
        .collect();
    let (mut routers, mut proxies) = (vec![], vec![]);
    for (k, i) in kinds.iter().zip(&infos) {
        if *k == Kind::Real {
            let r: BrokerRouter = Broker::new();
            proxies.push(Some(
                WebProxy::start(
                    Box::new(DataStorageTemp::new()),
                    i.get_id(),
                    r.clone(),
                    WebProxyConfig::default(),
                )
                .await?,
            ));
            routers.push(Some(r));
        } else {
            routers.push(None);
            proxies.push(None);
        }
    }
    let all: HashMap<NodeID, BrokerRouter> = infos
        .iter()
        .zip(&routers)
        .filter_map(|(i, r)| r.clone().map(|r| (i.get_id(), r)))
        .collect();
    let of = |k: Kind| {
        infos
            .iter()
            .zip(&kinds)
            .filter(|(_, q)| **q == k)
            .map(|(i, _)| i.get_id())
            .collect::<Vec<_>>()
    };
    for (i, r) in infos.iter().zip(routers.iter_mut()) {
        if let Some(r) = r {
            let tap = r.get_tap_in().await?.0;
            hub(
                i.get_id(),
                tap,
                all.clone(),
                of(Kind::Instant),
                of(Kind::Decoy),
                scripts.clone(),
                log.clone(),
            );
        }
    }
    Ok(World {
        infos,
        kinds,
        routers,
        proxies,
        scripts,
        log,
        port,
    })
}

/// How the page is read.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Text,
    Bytes,
    Chunks(u64),
    Dropped,
    /// Over the broker, not with `get`.
    Direct,
}

struct Page {
    n: usize,
    client: usize,
    how: How,
    script: Script,
    bad_url: bool,
}

enum Got {
    Failed(String),
    Page {
        proxy: Option<NodeID>,
        header: Option<ResponseHeader>,
        body: Option<Vec<u8>>,
        ended: bool,
    },
    Stuck,
}

async fn fetch(mut wp: WebProxy, url: String, how: How, hangs: bool) -> Got {
    let mut end = Duration::from_secs(25);
    if how == How::Direct {
        if hangs {
            end = Duration::from_secs(3);
        }
        let nonce = U256::rnd();
        let (tx, mut rx) = channel(4);
        let Ok((mut tap, id)) = wp.web_proxy.get_tap_out().await else {
            return Got::Stuck;
        };
        if wp
            .web_proxy
            .emit_msg_in(WebProxyIn::RequestGet(nonce, url, tx))
            .is_err()
        {
            return Got::Stuck;
        }
        let mut body = vec![];
        let mut ended = false;
        let _ = tokio::time::timeout(end, async {
            while let Some(b) = rx.recv().await {
                body.extend(b);
            }
            ended = true;
        })
        .await;
        let mut head = None;
        let mut proxy = None;
        for _ in 0..50 {
            while let Ok(WebProxyOut::ResponseGet(p, n, h)) = tap.try_recv() {
                if n == nonce {
                    head = Some(h);
                    proxy = Some(p);
                }
            }
            if head.is_some() || !ended {
                break;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        let _ = wp.web_proxy.remove_subsystem(id).await;
        return Got::Page {
            proxy,
            header: head,
            body: Some(body),
            ended,
        };
    }
    let mut resp = match tokio::time::timeout(end, wp.get(&url)).await {
        Err(_) => return Got::Stuck,
        Ok(Err(e)) => return Got::Failed(e.to_string()),
        Ok(Ok(r)) => r,
    };
    let (proxy, header) = (Some(resp.proxy()), Some(resp.headers()));
    let (mut body, mut ended) = (Some(vec![]), false);
    let _ = tokio::time::timeout(end, async {
        match how {
            How::Text => body = resp.text().await.ok().map(|s| s.into_bytes()),
            How::Bytes => body = Some(resp.bytes().await.to_vec()),
            How::Chunks(ms) => {
                while let Some(b) = resp.chunk().await {
                    body.as_mut().unwrap().extend(b);
                    if ms > 0 {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                }
            }
            _ => {
                let _ = resp.chunk().await;
            }
        }
        ended = true;
    })
    .await;
    Got::Page {
        proxy,
        header,
        body,
        ended,
    }
}

fn judge(p: &Page, got: &Got, w: &World, slow: bool) -> Result<&'static str, Bad> {
    let t = w
        .log
        .traces
        .lock()
        .unwrap()
        .get(&p.n)
        .cloned()
        .unwrap_or_default();
    let since = |i: Option<Instant>| {
        i.and_then(|i| {
            t.start
                .map(|s| i.saturating_duration_since(s).as_millis() as u64)
        })
    };
    let info = json!({"page": p.script.info(), "how": format!("{:?}", p.how), "bad_url": p.bad_url, "asked_ms": since(t.asked.first().map(|a| a.2)),
        "served_ms": since(t.served_at), "header_ms": since(t.header_at), "parts": t.parts, "by": t.asked.first().map(|a| w.infos.iter().zip(&w.kinds).find(|(i, _)| i.get_id() == a.1).map(|(_, k)| format!("{k:?}")))});
    let bad = |s: &str, v: Value| -> Result<&'static str, Bad> {
        Err((s.into(), json!({"what": v, "info": info})))
    };
    if t.asked.len() > 1 {
        return bad("asked-more-than-once", json!({"n": t.asked.len()}));
    }
    if t.served > 1 {
        return bad("fetched-more-than-once", json!({"n": t.served}));
    }
    let fails = p.bad_url || matches!(p.script.fault, Fault::NoAnswer | Fault::Hang | Fault::Junk);
    match got {
        Got::Stuck => bad("get-never-returns", json!({})),
        Got::Failed(e) => {
            if fails {
                return Ok("failed");
            }
            if slow {
                return Ok("too slow");
            }
            let quick = |i: Option<Instant>| {
                since(i)
                    .map(|ms| ms < 2000 + p.script.late_ms)
                    .unwrap_or(false)
            };
            if quick(t.header_at) {
                return bad("answer-lost", json!({"error": e}));
            }
            if quick(t.served_at) && p.script.late_ms < 2000 {
                return bad("answer-not-passed-on", json!({"error": e}));
            }
            if quick(t.served_at) {
                return Ok("too slow");
            }
            bad("server-not-asked", json!({"error": e}))
        }
        Got::Page {
            proxy,
            header,
            body,
            ended,
        } => {
            if fails {
                if header.is_some() {
                    return bad("answer-from-nowhere", json!({}));
                }
                if !ended && p.script.fault != Fault::Hang {
                    return bad("failed-request-never-ends", json!({}));
                }
                return Ok("failed");
            }
            if !ended {
                return bad(
                    "page-never-ends",
                    json!({"got": body.as_ref().map(|b| b.len())}),
                );
            }
            let Some(header) = header else {
                return bad("no-header", json!({}));
            };
            if let (Some(a), Some(p)) = (t.asked.first(), proxy) {
                if a.1 != *p {
                    return bad("wrong-proxy-named", json!({}));
                }
            }
            if header.status.code != p.script.status {
                return bad("status-differs", json!({"got": header.status.code}));
            }
            for (k, vs) in p.script.header_map() {
                let got = header
                    .headers
                    .iter()
                    .filter(|(h, _)| h.to_lowercase() == k)
                    .flat_map(|(_, v)| v.clone())
                    .collect::<Vec<_>>();
                if got.len() != vs.len() {
                    return bad(
                        "header-lost",
                        json!({"name": k, "got": got.len(), "want": vs.len()}),
                    );
                }
                for (g, v) in got.iter().zip(&vs) {
                    if v.is_ascii() && g.as_bytes() != &v[..] {
                        return bad(
                            "header-differs",
                            json!({"name": k, "got": g, "want": String::from_utf8_lossy(v)}),
                        );
                    }
                }
            }
            if let Some(k) = header.headers.keys().find(|k| {
                k.to_lowercase().starts_with("x-")
                    && !p.script.header_map().contains_key(&k.to_lowercase())
            }) {
                return bad("header-invented", json!({"name": k}));
            }
            if p.how == How::Dropped {
                return Ok("dropped");
            }
            let want = &p.script.body;
            if p.script.fault == Fault::Truncated {
                // What can be read as text depends on where it broke off.
                return match body {
                    Some(b) if !want.starts_with(b) => {
                        bad("broken-off-page-differs", json!({"got": b.len()}))
                    }
                    _ => Ok("broken off"),
                };
            }
            match body {
                None => bad("not-the-text", json!({})),
                Some(b) if b != want => {
                    let first = b.iter().zip(want).position(|(a, b)| a != b);
                    let (mut x, mut y) = (b.clone(), want.clone());
                    x.sort();
                    y.sort();
                    bad(
                        "body-differs",
                        json!({"got": b.len(), "want": want.len(), "first": first, "only_order": x == y}),
                    )
                }
                _ => Ok("same"),
            }
        }
    }
}

async fn p01_case(rng: &mut StdRng, ev: &mut BTreeMap<&'static str, u64>) -> Result<u64, Bad> {
    let er = |e: anyhow::Error| ("setup-failed".to_string(), json!({"e": e.to_string()}));
    let mut w = world(rng).await.map_err(er)?;
    let reals: Vec<usize> = (0..w.infos.len())
        .filter(|i| w.kinds[*i] == Kind::Real)
        .collect();
    // If the machine is too slow, timeouts don't mean anything.
    let stop = Arc::new(AtomicBool::new(false));
    let (log, st) = (w.log.clone(), stop.clone());
    std::thread::spawn(move || {
        let mut last = Instant::now();
        while !st.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(20));
            log.gap_ms
                .fetch_max(last.elapsed().as_millis() as u64, Ordering::Relaxed);
            last = Instant::now();
        }
    });
    let rounds = rng.gen_range(2..5);
    let mut sum = 0u64;
    for round in 0..rounds {
        // The connected nodes, there has to be one which can be asked.
        for c in &reals {
            let mut list: Vec<NodeInfo> = (0..w.infos.len())
                .filter(|i| i == c || rng.gen_bool(0.8))
                .map(|i| w.infos[i].clone())
                .collect();
            let other: Vec<usize> = (0..w.infos.len())
                .filter(|i| i != c && w.kinds[*i] != Kind::Decoy)
                .collect();
            if !list
                .iter()
                .any(|n| other.iter().any(|o| w.infos[*o].get_id() == n.get_id()))
            {
                list.push(w.infos[*pick(rng, &other)].clone());
            }
            if rng.gen_bool(0.5) {
                list.retain(|i| i.get_id() != w.infos[*c].get_id());
            }
            let r = w.routers[*c].as_mut().unwrap();
            r.emit_msg_out(RouterOut::NodeInfosConnected(list))
                .map_err(|e| er(e.into()))?;
            for _ in 0..rng.gen_range(0..4) {
                // Things which mean nothing.
                let src = w.infos[rng.gen_range(0..w.infos.len())].get_id();
                let nw = match rng.gen_range(0..7) {
                    0 => wrap(&Wire::Response(U256::rnd(), ResponseMessage::Done)),
                    1 => wrap(&Wire::Response(
                        U256::rnd(),
                        ResponseMessage::Body(Bytes::from_static(b"x")),
                    )),
                    2 => NetworkWrapper {
                        module: MODULE.into(),
                        msg: rnd_string(rng, 30),
                    },
                    3 => wrap(&Wire::Request(U256::rnd(), rnd_string(rng, 20))),
                    4 => wrap(&Wire::Request(U256::rnd(), "http://[::1".into())),
                    5 => NetworkWrapper {
                        module: "Other".into(),
                        msg: "".into(),
                    },
                    _ => wrap(&Wire::Response(
                        U256::rnd(),
                        ResponseMessage::Error("e".into()),
                    )),
                };
                r.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(src, nw))
                    .map_err(|e| er(e.into()))?;
            }
        }
        for c in &reals {
            w.routers[*c]
                .as_mut()
                .unwrap()
                .settle(vec![])
                .await
                .map_err(|e| er(e.into()))?;
        }
        let mut pages = vec![];
        for c in &reals {
            for _ in 0..rng.gen_range(1..8) {
                let how = *pick(
                    rng,
                    &[
                        How::Text,
                        How::Bytes,
                        How::Bytes,
                        How::Chunks(0),
                        How::Chunks(1),
                        How::Dropped,
                        How::Direct,
                        How::Direct,
                    ],
                );
                let mut script = Script::new(rng, how == How::Text);
                if script.parts.len() > 3000 {
                    script.parts = vec![script.body.len()];
                }
                if how == How::Dropped && script.pause_ms > 5 {
                    script.pause_ms = 2;
                }
                let mut s = w.scripts.lock().unwrap();
                pages.push(Page {
                    n: s.len(),
                    client: *c,
                    how,
                    bad_url: rng.gen_bool(0.02),
                    script: script.clone(),
                });
                s.push(script);
            }
        }
        let jobs = pages.iter().map(|p| {
            let wp = w.proxies[p.client].clone().unwrap();
            let url = if p.bad_url {
                format!(
                    "{}/{}",
                    *["http://127.0.0.1:1", "nowhere", "gopher://127.0.0.1"]
                        .get(p.n % 3)
                        .unwrap(),
                    p.n + 100_000
                )
            } else {
                format!("http://127.0.0.1:{}/{}", w.port, p.n)
            };
            let (log, n, how, hangs, delay) = (
                w.log.clone(),
                p.n,
                p.how,
                p.script.fault == Fault::Hang,
                rng.gen_range(0..30),
            );
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(if delay < 15 { 0 } else { delay })).await;
                log.trace(n, |t| t.start = Some(Instant::now()));
                fetch(wp, url, how, hangs).await
            })
        });
        let got = futures::future::join_all(jobs.collect::<Vec<_>>()).await;
        let slow = w.log.gap_ms.load(Ordering::Relaxed) > 700;
        for (p, g) in pages.iter().zip(got) {
            let g = g.map_err(|e| {
                (
                    "fetching-panicked".to_string(),
                    json!({"e": e.to_string(), "page": p.script.info()}),
                )
            })?;
            let r = judge(p, &g, &w, slow)?;
            *ev.entry(r).or_insert(0) += 1;
            if r == "same" && p.script.pause_ms * p.script.parts.len() as u64 > 5500 {
                *ev.entry("slow page").or_insert(0) += 1;
            }
            if r == "same" && p.script.late_ms > 1000 {
                *ev.entry("late answer").or_insert(0) += 1;
            }
            if r == "same" && p.script.parts.len() > 100 {
                *ev.entry("big page").or_insert(0) += 1;
            }
            sum = sum
                .wrapping_mul(31)
                .wrapping_add(p.script.body.len() as u64 + round);
        }
        let b = std::mem::take(&mut *w.log.bad.lock().unwrap());
        if let Some(b) = b.into_iter().next() {
            stop.store(true, Ordering::Relaxed);
            return Err(b);
        }
    }
    stop.store(true, Ordering::Relaxed);
    Ok(sum)
}

/// Nodes which fetch pages, and disconnect before these are finished.
async fn p01_gone(rng: &mut StdRng, ev: &mut BTreeMap<&'static str, u64>) -> Result<u64, Bad> {
    let er = |e: anyhow::Error| ("setup-failed".to_string(), json!({"e": e.to_string()}));
    let me = NodeConfig::new().info;
    let infos: Vec<NodeInfo> = (0..rng.gen_range(1..5))
        .map(|_| NodeConfig::new().info)
        .collect();
    let mut router: BrokerRouter = Broker::new();
    let wp = WebProxy::start(
        Box::new(DataStorageTemp::new()),
        me.get_id(),
        router.clone(),
        WebProxyConfig::default(),
    )
    .await
    .map_err(er)?;
    let mut tap = router.get_tap_in().await.map_err(|e| er(e.into()))?.0;
    router
        .emit_msg_out(RouterOut::NodeInfosConnected(infos.clone()))
        .map_err(|e| er(e.into()))?;
    router.settle(vec![]).await.map_err(|e| er(e.into()))?;
    struct Open {
        node: NodeID,
        nonce: U256,
        body: Vec<u8>,
        sent: usize,
        job: tokio::task::JoinHandle<Got>,
        gone: bool,
    }
    let begin = Instant::now();
    let mut open: Vec<Open> = vec![];
    for i in 0..rng.gen_range(1..8usize) {
        let (wp, how) = (
            wp.clone(),
            *pick(
                rng,
                &[How::Bytes, How::Chunks(0), How::Chunks(3), How::Direct],
            ),
        );
        let job = tokio::spawn(fetch(wp, format!("http://x/{i}"), how, false));
        let Ok(Some(RouterIn::NetworkWrapperToNetwork(node, nw))) =
            tokio::time::timeout(Duration::from_secs(5), tap.recv()).await
        else {
            return Err(("no-request-sent".into(), json!({})));
        };
        let Some(Wire::Request(nonce, url)) = nw.unwrap_yaml::<Wire>(MODULE) else {
            return Err(("unreadable-message-sent".into(), json!({})));
        };
        if url != format!("http://x/{i}") || !infos.iter().any(|n| n.get_id() == node) {
            return Err(("wrong-request".into(), json!({"url": url})));
        }
        let len = rng.gen_range(1..20_000);
        open.push(Open {
            node,
            nonce,
            body: rnd_bytes(rng, len),
            sent: 0,
            job,
            gone: false,
        });
        let head = ResponseHeader::new(
            ResponseStatus {
                code: 200,
                msg: "".into(),
            },
            HashMap::new(),
        );
        router
            .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(
                node,
                wrap(&Wire::Response(nonce, ResponseMessage::Header(head))),
            ))
            .map_err(|e| er(e.into()))?;
    }
    let mut here: Vec<NodeInfo> = infos.clone();
    for _ in 0..rng.gen_range(2..30) {
        match rng.gen_range(0..6) {
            0 => {
                // Some leave, others come, in any order
                if rng.gen_bool(0.5) && here.len() > 0 {
                    let id = here.remove(rng.gen_range(0..here.len())).get_id();
                    open.iter_mut()
                        .filter(|o| o.node == id)
                        .for_each(|o| o.gone = true);
                }
                if rng.gen_bool(0.3) {
                    here.push(NodeConfig::new().info);
                }
                let p = rng.gen_range(0..here.len().max(1));
                if here.len() > 0 {
                    here.rotate_left(p);
                }
                router
                    .emit_msg_out(RouterOut::NodeInfosConnected(here.clone()))
                    .map_err(|e| er(e.into()))?;
                router.settle(vec![]).await.map_err(|e| er(e.into()))?;
            }
            _ => {
                let k = rng.gen_range(0..open.len());
                let o = &mut open[k];
                if o.gone || o.sent == o.body.len() {
                    continue;
                }
                let n = rng.gen_range(1..=(o.body.len() - o.sent).min(4000));
                let b = Bytes::from(o.body[o.sent..o.sent + n].to_vec());
                o.sent += n;
                router
                    .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(
                        o.node,
                        wrap(&Wire::Response(o.nonce, ResponseMessage::Body(b))),
                    ))
                    .map_err(|e| er(e.into()))?;
            }
        }
    }
    let mut sum = open.len() as u64;
    for o in &mut open {
        if !o.gone {
            let b = Bytes::from(o.body[o.sent..].to_vec());
            o.sent = o.body.len();
            for m in [ResponseMessage::Body(b), ResponseMessage::Done] {
                router
                    .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(
                        o.node,
                        wrap(&Wire::Response(o.nonce, m)),
                    ))
                    .map_err(|e| er(e.into()))?;
            }
        }
    }
    for o in open {
        let info = json!({"gone": o.gone, "sent": o.sent, "len": o.body.len()});
        match o.job.await {
            Ok(Got::Page {
                proxy,
                header: Some(_),
                body: Some(b),
                ended,
            }) => {
                if !ended {
                    return Err((
                        if o.gone {
                            "page-of-gone-node-never-ends"
                        } else {
                            "page-never-ends"
                        }
                        .into(),
                        info,
                    ));
                }
                if proxy != Some(o.node) {
                    return Err(("wrong-proxy-named".into(), info));
                }
                if !o.body[..o.sent].starts_with(&b) || (!o.gone && b != o.body) {
                    return Err(("body-differs".into(), json!({"got": b.len(), "info": info})));
                }
                *ev.entry(if o.gone { "node gone" } else { "node stays" })
                    .or_insert(0) += 1;
                sum = sum.wrapping_mul(31).wrapping_add(o.sent as u64);
            }
            Ok(Got::Failed(_)) if begin.elapsed() > Duration::from_secs(4) => {
                *ev.entry("too slow").or_insert(0) += 1
            }
            Ok(Got::Failed(e)) => {
                return Err(("answer-lost".into(), json!({"e": e, "info": info})))
            }
            Ok(_) => return Err(("no-header".into(), info)),
            Err(e) => return Err(("fetching-panicked".into(), json!({"e": e.to_string()}))),
        }
    }
    Ok(sum)
}

fn p01(m: &mut Mon) {
    m.rule("Real web proxy modules, joined by a hub which passes their messages on in order, fetch pages which a scripted HTTP server serves over the loopback interface, several at the same time and through several nodes, some of which answer at once. The monitor compares status, headers and body of each page with the script, however it is read, and checks that each request is asked of exactly one connected node which offers this, that failed and broken off requests end, also if the node which fetches the page leaves, while the others go on, and that nothing panics.");
    m.assume("The messages between two nodes arrive in order and once (W01).");
    m.assume(
        "Values of headers which are not ASCII may be replaced, as they have no defined meaning.",
    );
    for e in [
        "same",
        "failed",
        "broken off",
        "dropped",
        "big page",
        "slow page",
        "late answer",
    ] {
        m.require(e, 1);
    }
    for e in ["node gone", "node stays"] {
        m.require(e, 20);
    }
    for i in 0..m.n(60, 1000) {
        let Some(mut rng) = m.begin(format!("gone-{i}")) else {
            continue;
        };
        let rt = rt_multi(2);
        let mut ev = BTreeMap::new();
        match drive(&rt, 60, p01_gone(&mut rng, &mut ev)) {
            Some(Ok(h)) => m.nontrivial((i, h)),
            Some(Err((s, v))) => m.violation(&s, v),
            None => m.violation("stuck", json!({})),
        }
        for (e, n) in ev {
            m.count(e, n);
        }
        m.check_panics("nodes which leave");
        if m.failed() {
            return;
        }
    }
    let n = m.n(24, 300);
    let per = 12;
    let rt = rt_multi(8);
    let mut i = 0;
    while i < n && !m.failed() {
        // Some of them wait for timeouts, so run several at the same time.
        let mut cases = vec![];
        for _ in 0..per {
            cases.push((i, m.begin(format!("proxy-{i}"))));
            i += 1;
        }
        let jobs: Vec<_> = cases
            .into_iter()
            .filter_map(|(i, rng)| rng.map(|rng| (i, rng)))
            .map(|(i, mut rng)| {
                rt.spawn(async move {
                    let mut ev = BTreeMap::new();
                    let r = p01_case(&mut rng, &mut ev).await;
                    (i, r, ev)
                })
            })
            .collect();
        let res = drive(&rt, 200, futures::future::join_all(jobs));
        let Some(res) = res else {
            m.violation("never-ends", json!({"cases": i}));
            return;
        };
        for r in res {
            match r {
                Err(e) => m.violation("case-panicked", json!({"e": e.to_string()})),
                Ok((i, r, ev)) => {
                    for (e, n) in ev {
                        m.count(e, n);
                    }
                    match r {
                        Ok(h) => m.nontrivial((i, h)),
                        Err((sig, mut v)) => {
                            v["case"] = json!(format!("proxy-{i}"));
                            m.violation(&sig, v)
                        }
                    }
                }
            }
        }
        m.check_panics("fetching pages");
    }
    if let Some(s) = Some(Script::new(&mut StdRng::seed_from_u64(1), false)) {
        m.sample(s.info());
    }
}

fn main() {
    main_with(|m, id| match id {
        "P01" => p01(m),
        _ => panic!("unknown check {id}"),
    });
}
