//! W03: the websocket server; W04: the websocket client. Both with real connections over the loopback interface.
use std::{
    collections::{BTreeMap, VecDeque},
    time::{Duration, Instant},
};

use flarch::web_rtc::{
    web_socket_client::WebSocketClient,
    web_socket_server::WebSocketServer,
    websocket::{BrokerWSClient, BrokerWSServer, WSClientIn, WSClientOut, WSServerIn, WSServerOut},
};
use futures::{stream::SplitSink, SinkExt, StreamExt};
use mon::{
    drive, main_with, rt_multi,
    util::{pick, rnd_bytes, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    sync::mpsc::{unbounded_channel, UnboundedReceiver},
    task::JoinHandle,
};
use tokio_tungstenite::{accept_async, client_async, tungstenite::Message, WebSocketStream};

type Bad = (String, Value);
type Sink = SplitSink<WebSocketStream<TcpStream>, Message>;
const LONG: Duration = Duration::from_secs(20);

fn rnd_text(rng: &mut StdRng) -> String {
    let len = match rng.gen_range(0..20) {
        0 => 0,
        1..=14 => rng.gen_range(1..200),
        15..=18 => rng.gen_range(200..20_000),
        _ => rng.gen_range(20_000..300_000),
    };
    rnd_string(rng, len)
}

fn info(t: &str) -> Value {
    json!({"len": t.len(), "start": t.chars().take(40).collect::<String>()})
}

fn sockets() -> usize {
    std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.filter(|f| {
                f.as_ref()
                    .ok()
                    .and_then(|f| std::fs::read_link(f.path()).ok())
                    .map(|l| l.to_string_lossy().starts_with("socket:"))
                    .unwrap_or(false)
            })
            .count()
        })
        .unwrap_or(0)
}

fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

/// Opens a websocket; None if the server doesn't answer.
async fn open(port: u16) -> Option<WebSocketStream<TcpStream>> {
    tokio::time::timeout(LONG, async {
        let s = TcpStream::connect(("127.0.0.1", port)).await.ok()?;
        s.set_nodelay(true).ok()?;
        Some(client_async(format!("ws://127.0.0.1:{port}"), s).await.ok()?.0)
    })
    .await
    .ok()?
}

/// What the reading task of one end tells.
enum Read {
    Text(String),
    End,
}

fn reader(mut rd: futures::stream::SplitStream<WebSocketStream<TcpStream>>) -> (UnboundedReceiver<Read>, JoinHandle<()>) {
    let (tx, rx) = unbounded_channel();
    let h = tokio::spawn(async move {
        loop {
            match rd.next().await {
                Some(Ok(Message::Text(t))) => {
                    let _ = tx.send(Read::Text(t.to_string()));
                }
                Some(Ok(Message::Close(_))) | Some(Err(_)) | None => {
                    let _ = tx.send(Read::End);
                    return;
                }
                _ => {}
            }
        }
    });
    (rx, h)
}

// ---------------------------------------------------------------- W03
#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Open,
    /// The client is gone, the server has to notice.
    Left,
    /// The server was told to close it.
    Closed,
}

struct Client {
    wr: Option<Sink>,
    rx: UnboundedReceiver<Read>,
    task: JoinHandle<()>,
    state: St,
    id: Option<usize>,
    hello: String,
    /// Sent by the client, not yet reported by the server.
    up: VecDeque<String>,
    /// Sent by the server, not yet seen by the client.
    down: VecDeque<String>,
    ended: bool,
    gone: bool,
    /// Whatever is still on its way may be lost.
    lossy: bool,
}

struct Server {
    br: BrokerWSServer,
    tap: UnboundedReceiver<WSServerOut>,
    port: u16,
    clients: Vec<Client>,
    by_id: BTreeMap<usize, Option<usize>>,
    ended_ids: BTreeMap<usize, u32>,
    silent: Vec<TcpStream>,
    /// Stop was sent.
    stopping: bool,
    /// Stop was confirmed.
    stopped: bool,
    failed_handshakes: usize,
    bad: Option<Bad>,
    ev: BTreeMap<&'static str, u64>,
    last: Instant,
}

impl Server {
    async fn new() -> anyhow::Result<Self> {
        for _ in 0..20 {
            let port = free_port();
            if let Ok(mut br) = WebSocketServer::new(port).await {
                let (tap, _) = br.get_tap_out().await?;
                return Ok(Self {
                    br,
                    tap,
                    port,
                    clients: vec![],
                    by_id: BTreeMap::new(),
                    ended_ids: BTreeMap::new(),
                    silent: vec![],
                    stopping: false,
                    stopped: false,
                    failed_handshakes: 0,
                    bad: None,
                    ev: BTreeMap::new(),
                    last: Instant::now(),
                });
            }
        }
        anyhow::bail!("no free port")
    }

    fn bad(&mut self, sig: &str, v: Value) {
        if self.bad.is_none() {
            self.bad = Some((sig.into(), v));
        }
    }

    fn ev(&mut self, e: &'static str) {
        *self.ev.entry(e).or_insert(0) += 1;
    }

    fn pump(&mut self) -> bool {
        let mut active = false;
        while let Ok(m) = self.tap.try_recv() {
            active = true;
            if self.stopped && !matches!(m, WSServerOut::Disconnection(_)) {
                self.bad("active-after-stop", json!({"msg": format!("{m:?}").chars().take(80).collect::<String>()}));
            }
            match m {
                WSServerOut::NewConnection(id) => {
                    self.ev("new");
                    if self.by_id.insert(id, None).is_some() {
                        self.bad("id-used-twice", json!({"id": id}));
                    }
                }
                WSServerOut::Message(id, t) => self.message(id, t),
                WSServerOut::Disconnection(id) => {
                    self.ev("gone");
                    *self.ended_ids.entry(id).or_insert(0) += 1;
                    if self.ended_ids[&id] > 1 {
                        self.bad("disconnected-twice", json!({"id": id}));
                    }
                    if !self.by_id.contains_key(&id) {
                        self.bad("unknown-disconnected", json!({"id": id}));
                    }
                    if let Some(Some(c)) = self.by_id.get(&id).cloned() {
                        let cl = &mut self.clients[c];
                        cl.gone = true;
                        if cl.state == St::Open && !self.stopping {
                            let n = cl.up.len();
                            self.bad("open-connection-disconnected", json!({"id": id, "pending": n}));
                        } else if cl.up.len() > 0 && !cl.lossy {
                            let v = json!({"id": id, "lost": cl.up.len(), "first": info(&cl.up[0])});
                            self.bad("disconnected-before-its-messages", v);
                        }
                    }
                }
                WSServerOut::Stopped => {
                    self.stopped = true;
                }
            }
        }
        for c in 0..self.clients.len() {
            while let Ok(r) = self.clients[c].rx.try_recv() {
                active = true;
                match r {
                    Read::Text(_) if self.clients[c].state == St::Left => {}
                    Read::Text(t) => {
                        self.ev("down");
                        let cl = &mut self.clients[c];
                        let want = cl.down.pop_front();
                        let (id, st) = (cl.id, cl.state);
                        if want.as_ref() != Some(&t) {
                            // Meant for somebody else?
                            let other = self.clients.iter().position(|o| o.down.contains(&t));
                            self.bad(
                                "wrong-message-to-client",
                                json!({"id": id, "got": info(&t), "want": want.map(|w| info(&w)), "other": other, "state": format!("{st:?}")}),
                            );
                        }
                    }
                    Read::End => {
                        let cl = &mut self.clients[c];
                        cl.ended = true;
                        if cl.state == St::Open && !self.stopping {
                            let id = cl.id;
                            self.bad("open-connection-closed", json!({"id": id}));
                        }
                    }
                }
            }
        }
        if active {
            self.last = Instant::now();
        }
        active
    }

    fn message(&mut self, id: usize, t: String) {
        self.ev("up");
        if !self.by_id.contains_key(&id) {
            return self.bad("message-before-connection", json!({"id": id, "msg": info(&t)}));
        }
        if self.ended_ids.contains_key(&id) {
            return self.bad("message-after-disconnection", json!({"id": id, "msg": info(&t)}));
        }
        let c = match self.by_id[&id] {
            Some(c) => c,
            None => match self.clients.iter().position(|c| c.hello == t && c.id.is_none()) {
                Some(c) => {
                    self.by_id.insert(id, Some(c));
                    self.clients[c].id = Some(id);
                    c
                }
                None => return self.bad("first-message-unknown", json!({"id": id, "msg": info(&t)})),
            },
        };
        let want = self.clients[c].up.pop_front();
        if want.as_ref() != Some(&t) {
            self.bad("message-differs", json!({"id": id, "got": info(&t), "want": want.map(|w| info(&w))}));
        }
    }

    /// What is still missing, or None if all arrived.
    fn missing(&self) -> Option<(&'static str, Value)> {
        for c in &self.clients {
            let who = json!({"id": c.id, "state": format!("{:?}", c.state)});
            match c.state {
                St::Open => {
                    if c.id.is_none() {
                        return Some(("connection-not-reported", who));
                    }
                    if let Some(t) = c.up.front() {
                        return Some(("message-to-server-lost", json!({"who": who, "msg": info(t), "all": c.up.len()})));
                    }
                    if let Some(t) = c.down.front() {
                        return Some(("message-to-client-lost", json!({"who": who, "msg": info(t), "all": c.down.len()})));
                    }
                }
                St::Left => {
                    if !c.gone && (c.id.is_some() || !c.lossy) {
                        return Some(("disconnection-not-reported", who));
                    }
                }
                St::Closed => {
                    if !c.ended {
                        return Some(("closed-connection-still-open", who));
                    }
                    if !c.gone {
                        return Some(("disconnection-not-reported", who));
                    }
                }
            }
        }
        None
    }

    async fn flush(&mut self) {
        let start = Instant::now();
        self.last = start;
        while self.bad.is_none() {
            if self.pump() {
                continue;
            }
            match self.missing() {
                None => return,
                Some((sig, v)) => {
                    if self.last.elapsed() > LONG {
                        self.bad(sig, v);
                    }
                }
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }

    async fn connect(&mut self, rng: &mut StdRng) {
        let Some(ws) = open(self.port).await else {
            return self.bad("connection-refused", json!({"silent": self.silent.len(), "clients": self.clients.len()}));
        };
        self.ev("clients");
        let (wr, rd) = ws.split();
        let (rx, task) = reader(rd);
        let hello = format!("hello-{:032x}", rng.gen::<u128>());
        self.clients.push(Client {
            wr: Some(wr),
            rx,
            task,
            state: St::Open,
            id: None,
            hello: hello.clone(),
            up: VecDeque::new(),
            down: VecDeque::new(),
            ended: false,
            gone: false,
            lossy: false,
        });
        let c = self.clients.len() - 1;
        self.up(c, hello).await;
    }

    async fn up(&mut self, c: usize, t: String) {
        let cl = &mut self.clients[c];
        cl.up.push_back(t.clone());
        let Some(wr) = cl.wr.as_mut() else { return };
        let r = tokio::time::timeout(LONG, wr.send(Message::Text(t.into()))).await;
        if !matches!(r, Ok(Ok(()))) && self.clients[c].state == St::Open {
            self.bad("client-cannot-send", json!({"client": c, "error": format!("{r:?}")}));
        }
    }

    fn down(&mut self, c: usize, t: String) {
        let Some(id) = self.clients[c].id else { return };
        self.clients[c].down.push_back(t.clone());
        self.br.emit_msg_in(WSServerIn::Message(id, t)).expect("emit to server");
    }

    fn open_clients(&self) -> Vec<usize> {
        (0..self.clients.len())
            .filter(|c| self.clients[*c].state == St::Open && self.clients[*c].id.is_some())
            .collect()
    }

    async fn step(&mut self, rng: &mut StdRng) {
        let open_c = self.open_clients();
        let some = if open_c.len() > 0 { Some(*pick(rng, &open_c)) } else { None };
        match (rng.gen_range(0..20), some) {
            (0..=2, _) | (_, None) => {
                for _ in 0..rng.gen_range(1..4) {
                    if self.clients.iter().filter(|c| c.state == St::Open).count() < 10 {
                        self.connect(rng).await;
                    }
                }
            }
            (3..=6, Some(_)) => {
                for _ in 0..rng.gen_range(1..8) {
                    let c = *pick(rng, &open_c);
                    let t = rnd_text(rng);
                    self.up(c, t).await;
                }
            }
            (7..=10, Some(_)) => {
                for _ in 0..rng.gen_range(1..8) {
                    let c = *pick(rng, &open_c);
                    let t = rnd_text(rng);
                    self.down(c, t);
                }
            }
            (11, Some(_)) => {
                // Connections which don't exist or not anymore.
                let mut ids: Vec<usize> = self.ended_ids.keys().cloned().collect();
                ids.extend([usize::MAX, 1000, self.clients.len() + self.failed_handshakes + 50]);
                let id = *pick(rng, &ids);
                let msg = if rng.gen() { WSServerIn::Message(id, "nobody".into()) } else { WSServerIn::Close(id) };
                self.br.emit_msg_in(msg).expect("emit to server");
            }
            (12, Some(c)) => {
                // A client leaves as it should.
                if rng.gen() {
                    self.flush().await;
                }
                let cl = &mut self.clients[c];
                cl.down.clear();
                cl.state = St::Left;
                if let Some(mut wr) = cl.wr.take() {
                    let _ = tokio::time::timeout(LONG, wr.send(Message::Close(None))).await;
                    if rng.gen() {
                        cl.wr = Some(wr);
                    }
                }
                cl.task.abort();
                self.ev("left");
            }
            (13, Some(c)) => {
                // A client vanishes.
                self.flush().await;
                let cl = &mut self.clients[c];
                cl.down.clear();
                cl.state = St::Left;
                cl.lossy = true;
                cl.wr = None;
                cl.task.abort();
                self.ev("left");
            }
            (14 | 15, Some(c)) => {
                // The server closes a connection, sometimes with texts on their way.
                let quiet: bool = rng.gen();
                if quiet {
                    self.flush().await;
                } else {
                    let t = rnd_text(rng);
                    self.up(c, t).await;
                }
                let cl = &mut self.clients[c];
                let Some(id) = cl.id else { return };
                cl.state = St::Closed;
                cl.lossy = true;
                if quiet && rng.gen() {
                    // After this nothing more goes to the client.
                    let mut br = self.br.clone();
                    let _ = tokio::time::timeout(LONG, br.settle_msg_in(WSServerIn::Close(id))).await;
                    self.br.emit_msg_in(WSServerIn::Message(id, "too late".into())).expect("emit to server");
                } else {
                    self.br.emit_msg_in(WSServerIn::Close(id)).expect("emit to server");
                }
                if rng.gen_range(0..4) == 0 {
                    self.br.emit_msg_in(WSServerIn::Close(id)).expect("emit to server");
                }
                self.ev("closed");
            }
            (16, Some(_)) => {
                // Connections which never become a websocket.
                if let Ok(mut s) = TcpStream::connect(("127.0.0.1", self.port)).await {
                    self.ev("no-handshake");
                    match rng.gen_range(0..4) {
                        0 => self.silent.push(s),
                        1 => {
                            let _ = s.write_all(b"GET / HTTP/1.1\r\n").await;
                            self.silent.push(s);
                        }
                        2 => {
                            self.failed_handshakes += 1;
                            let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await;
                            let _ = s.shutdown().await;
                        }
                        _ => {
                            self.failed_handshakes += 1;
                            let _ = s.write_all(&rnd_bytes(rng, 300)).await;
                        }
                    }
                }
            }
            (17, Some(c)) => {
                // Messages which are no texts.
                let m = match rng.gen_range(0..3) {
                    0 => Message::Binary(rnd_bytes(rng, 100).into()),
                    1 => Message::Ping(rnd_bytes(rng, 10).into()),
                    _ => Message::Pong(rnd_bytes(rng, 10).into()),
                };
                if let Some(wr) = self.clients[c].wr.as_mut() {
                    let _ = wr.send(m).await;
                }
            }
            (18, Some(_)) => {
                // A client which sends junk instead of frames.
                if let Some(mut ws) = open(self.port).await {
                    self.ev("junk-clients");
                    let hello = format!("hello-{:032x}", rng.gen::<u128>());
                    let _ = ws.send(Message::Text(hello.clone().into())).await;
                    let junk = match rng.gen_range(0..3) {
                        0 => vec![0x81, 0x83, 1, 2, 3, 4, 0xfe ^ 1, 0xff ^ 2, 0xfd ^ 3],
                        1 => vec![0xff; 50],
                        _ => vec![0x81, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4],
                    };
                    let _ = ws.get_mut().write_all(&junk).await;
                    let (wr, rd) = ws.split();
                    let (rx, task) = reader(rd);
                    self.clients.push(Client {
                        wr: Some(wr),
                        rx,
                        task,
                        state: St::Left,
                        id: None,
                        hello: hello.clone(),
                        up: VecDeque::from([hello]),
                        down: VecDeque::new(),
                        ended: false,
                        gone: false,
                        lossy: false,
                    });
                }
            }
            _ => self.flush().await,
        }
    }

    /// A client which doesn't read must not keep the others from getting their messages.
    async fn stalled(&mut self, rng: &mut StdRng) {
        while self.open_clients().len() < 2 && self.bad.is_none() {
            self.connect(rng).await;
            self.flush().await;
        }
        if self.bad.is_some() {
            return;
        }
        let Some(mut ws) = open(self.port).await else {
            return self.bad("connection-refused", json!({}));
        };
        let hello = format!("hello-{:032x}", rng.gen::<u128>());
        let _ = ws.send(Message::Text(hello.clone().into())).await;
        let (wr, _rd) = ws.split();
        let (_, rx) = unbounded_channel();
        self.clients.push(Client {
            wr: Some(wr),
            rx,
            task: tokio::spawn(async {}),
            state: St::Open,
            id: None,
            hello: hello.clone(),
            up: VecDeque::from([hello]),
            down: VecDeque::new(),
            ended: false,
            gone: false,
            lossy: true,
        });
        self.flush().await;
        let c = self.clients.len() - 1;
        let Some(id) = self.clients[c].id else { return };
        // From now on the server may drop it.
        self.clients[c].state = St::Left;
        self.clients[c].id = None;
        let mb = "x".repeat(1 << 20);
        for _ in 0..40 {
            self.br.emit_msg_in(WSServerIn::Message(id, mb.clone())).expect("emit to server");
        }
        self.ev("stalled");
        for _ in 0..3 {
            for c in self.open_clients() {
                let t = rnd_text(rng);
                self.down(c, t);
                let t = rnd_text(rng);
                self.up(c, t).await;
            }
        }
        self.flush().await;
        if self.bad.is_none() {
            self.connect(rng).await;
            self.flush().await;
        }
        self.clients[c].wr = None;
    }

    async fn stop(&mut self, rng: &mut StdRng) {
        self.flush().await;
        if self.bad.is_some() {
            return;
        }
        self.stopping = true;
        self.br.emit_msg_in(WSServerIn::Stop).expect("emit to server");
        let start = Instant::now();
        while !self.stopped {
            if !self.pump() {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if start.elapsed() > LONG {
                return self.bad("stop-not-reported", json!({}));
            }
        }
        for c in self.open_clients() {
            if rng.gen() {
                if let Some(id) = self.clients[c].id {
                    // down stays empty: it must not arrive.
                    self.br.emit_msg_in(WSServerIn::Message(id, "after stop".into())).expect("emit to server");
                }
            }
            if let Some(wr) = self.clients[c].wr.as_mut() {
                let _ = tokio::time::timeout(LONG, wr.send(Message::text("after stop"))).await;
            }
        }
        for _ in 0..60 {
            self.pump();
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if self.bad.is_none() {
            let r = tokio::time::timeout(Duration::from_millis(500), async {
                let s = TcpStream::connect(("127.0.0.1", self.port)).await.ok()?;
                client_async(format!("ws://127.0.0.1:{}", self.port), s).await.ok()
            })
            .await;
            if matches!(r, Ok(Some(_))) {
                self.bad("connected-after-stop", json!({}));
            }
        }
    }
}

async fn w03_case(rng: &mut StdRng, stalled: bool) -> anyhow::Result<(Option<Bad>, BTreeMap<&'static str, u64>)> {
    let base = sockets();
    let mut s = Server::new().await?;
    let own = sockets() - base;
    for _ in 0..rng.gen_range(20..50) {
        s.step(rng).await;
        if rng.gen_range(0..3) == 0 {
            s.pump();
        }
        if s.bad.is_some() {
            break;
        }
    }
    if stalled && s.bad.is_none() {
        s.stalled(rng).await;
    }
    if s.bad.is_none() {
        s.flush().await;
    }
    if rng.gen() && s.bad.is_none() {
        // All clients are gone: the server has nothing left open.
        let all = s.clients.len();
        for c in s.clients.iter_mut() {
            c.wr = None;
            c.task.abort();
            if c.state == St::Open {
                c.state = St::Left;
                c.down.clear();
                c.lossy = true;
            }
        }
        s.silent.clear();
        s.flush().await;
        s.ev("all-gone");
        let start = Instant::now();
        while s.bad.is_none() && sockets() > base + own {
            s.pump();
            tokio::time::sleep(Duration::from_millis(5)).await;
            if start.elapsed() > LONG {
                s.bad("connections-leaked", json!({"open": sockets() - base - own, "clients": all}));
            }
        }
    }
    if s.bad.is_none() {
        s.stop(rng).await;
    }
    for c in &s.clients {
        c.task.abort();
    }
    Ok((s.bad.take(), s.ev))
}

fn upgrade(port: u16) -> String {
    format!(
        "GET / HTTP/1.1\r\nHost: 127.0.0.1:{port}\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
    )
}

/// The texts as a client's frames.
fn frames(texts: &[String]) -> Vec<u8> {
    let mut out = vec![];
    for t in texts {
        let mask = [1u8, 2, 3, 4];
        assert!(t.len() < 126);
        out.extend([0x81, 0x80 | t.len() as u8]);
        out.extend(mask);
        out.extend(t.bytes().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    }
    out
}

/// Reads until the given text arrives in an unmasked frame.
async fn hears(s: &mut TcpStream, want: &str) -> bool {
    let mut got: Vec<u8> = vec![];
    let mut buf = [0u8; 1024];
    while !got.windows(want.len()).any(|w: &[u8]| w == want.as_bytes()) {
        match tokio::time::timeout(LONG, s.read(&mut buf)).await {
            Ok(Ok(n)) if n > 0 => got.extend(&buf[..n]),
            _ => return false,
        }
    }
    true
}

/// Many clients, which all send their first texts in one packet, right after the upgrade.
async fn w03_many(rng: &mut StdRng) -> anyhow::Result<(Option<Bad>, BTreeMap<&'static str, u64>)> {
    let mut s = Server::new().await?;
    let (mut seen, mut open): (BTreeMap<usize, Vec<String>>, Vec<TcpStream>) = Default::default();
    let mut bad = None;
    let mut total = 0;
    for round in 0..rng.gen_range(8..14) {
        let texts: Vec<Vec<String>> = (0..rng.gen_range(1..60))
            .map(|c| (0..rng.gen_range(1..5)).map(|t| format!("<{round}:{c}:{t}>")).collect())
            .collect();
        total += texts.len();
        let stay: Vec<bool> = texts.iter().map(|_| rng.gen_range(0..3) == 0).collect();
        let mut tasks = vec![];
        for t in &texts {
            let (port, data) = (s.port, frames(t));
            tasks.push(tokio::spawn(async move {
                let mut c = TcpStream::connect(("127.0.0.1", port)).await?;
                c.set_nodelay(true)?;
                c.write_all(upgrade(port).as_bytes()).await?;
                if !hears(&mut c, "\r\n\r\n").await {
                    anyhow::bail!("no upgrade");
                }
                c.write_all(&data).await?;
                anyhow::Ok(c)
            }));
        }
        let mut clients = vec![];
        for t in tasks {
            clients.push(t.await??);
        }
        let mut missing: usize = texts.iter().map(|t| t.len()).sum();
        let mut round_ids = BTreeMap::<usize, Vec<String>>::new();
        while missing > 0 && bad.is_none() {
            let Ok(Some(m)) = tokio::time::timeout(LONG, s.tap.recv()).await else {
                bad = Some(("text-never-reported".into(), json!({"missing": missing, "round": round, "clients": total})));
                break;
            };
            match m {
                WSServerOut::NewConnection(id) => {
                    s.ev("eager");
                    if seen.insert(id, vec![]).is_some() {
                        bad = Some(("id-used-twice".into(), json!({"id": id, "clients": total})));
                    }
                }
                WSServerOut::Message(id, t) => {
                    missing -= 1;
                    if !seen.contains_key(&id) {
                        bad = Some(("message-before-connection".into(), json!({"id": id, "text": t})));
                    }
                    round_ids.entry(id).or_default().push(t);
                }
                WSServerOut::Disconnection(id) if !seen.contains_key(&id) => {
                    bad = Some(("unknown-disconnected".into(), json!({"id": id})));
                }
                _ => {}
            }
        }
        // Every client's texts in order under an id of its own.
        let mut ids = BTreeMap::new();
        for (id, t) in round_ids {
            match texts.iter().position(|w| *w == t) {
                Some(c) => {
                    ids.insert(c, id);
                }
                None if bad.is_none() => bad = Some(("texts-mixed".into(), json!({"id": id, "texts": t}))),
                None => {}
            }
        }
        for (c, mut client) in clients.into_iter().enumerate() {
            let Some(id) = ids.get(&c) else { continue };
            if stay[c] && bad.is_none() {
                let back = format!("[{round}:{c}]");
                s.br.emit_msg_in(WSServerIn::Message(*id, back.clone()))?;
                if !hears(&mut client, &back).await {
                    bad = Some(("text-never-arrives".into(), json!({"id": id, "text": back})));
                }
                open.push(client);
                s.ev("eager-answered");
            }
        }
        // Other clients leave again.
        while rng.gen() && !open.is_empty() {
            let i = rng.gen_range(0..open.len());
            open.swap_remove(i);
        }
        if bad.is_some() {
            break;
        }
    }
    s.br.emit_msg_in(WSServerIn::Stop)?;
    while let Ok(Some(m)) = tokio::time::timeout(LONG, s.tap.recv()).await {
        if m == WSServerOut::Stopped {
            break;
        }
    }
    Ok((bad, s.ev))
}

fn w03(mon: &mut Mon) {
    mon.rule("one case per history: a server on a loopback port, up to ten clients at a time which connect, send, leave, vanish, or are closed by the server, with connections which never become a websocket, junk frames, messages to closed connections, and clients which don't read; then all leave or the server stops; in other cases hundreds of clients, up to sixty at once, send their first texts in one packet right after the upgrade");
    for (e, n) in [("clients", 100), ("up", 300), ("down", 200), ("left", 20), ("closed", 20), ("no-handshake", 20), ("stalled", 3), ("all-gone", 3), ("junk-clients", 5), ("eager", 500), ("eager-answered", 100)] {
        mon.require(e, n);
    }
    let n = mon.n(40, 600);
    for i in 0..n {
        let Some(mut rng) = mon.begin(format!("server{i}")) else { continue };
        let rt = rt_multi(4);
        let run = async {
            if i % 10 == 3 {
                w03_many(&mut rng).await
            } else {
                w03_case(&mut rng, i % 8 == 0).await
            }
        };
        match drive(&rt, 300, run) {
            Some(Ok((bad, ev))) => {
                mon.nontrivial(format!("{ev:?}"));
                for (e, n) in &ev {
                    mon.count(e, *n);
                }
                if let Some((sig, v)) = bad {
                    mon.violation(&sig, v);
                }
                mon.sample(json!(ev));
            }
            Some(Err(e)) => mon.violation("operation-failed", json!({"error": e.to_string()})),
            None => mon.violation("history-never-ends", json!({})),
        }
        rt.shutdown_timeout(Duration::from_millis(200));
        mon.check_panics("server");
        if mon.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- W04
struct Conn {
    wr: Sink,
    rx: UnboundedReceiver<Read>,
    task: JoinHandle<()>,
}

struct Remote {
    port: u16,
    listener: Option<TcpListener>,
    client: BrokerWSClient,
    tap: UnboundedReceiver<WSClientOut>,
    conn: Option<Conn>,
    up: VecDeque<String>,
    down: VecDeque<String>,
    disconnects: usize,
    /// Texts may get lost, so the next ones only have to arrive in order.
    bad: Option<Bad>,
    ev: BTreeMap<&'static str, u64>,
}

impl Remote {
    fn bad(&mut self, sig: &str, v: Value) {
        if self.bad.is_none() {
            self.bad = Some((sig.into(), v));
        }
    }

    fn ev(&mut self, e: &'static str) {
        *self.ev.entry(e).or_insert(0) += 1;
    }

    async fn listen(&mut self) -> anyhow::Result<()> {
        for _ in 0..100 {
            if let Ok(l) = TcpListener::bind(("127.0.0.1", self.port)).await {
                self.listener = Some(l);
                return Ok(());
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        anyhow::bail!("cannot listen again")
    }

    /// Waits for the client to connect.
    async fn accept(&mut self, within: Duration) -> bool {
        let l = self.listener.as_ref().unwrap();
        let ws = tokio::time::timeout(within, async {
            loop {
                if let Ok((s, _)) = l.accept().await {
                    let _ = s.set_nodelay(true);
                    if let Ok(ws) = accept_async(s).await {
                        return ws;
                    }
                }
            }
        })
        .await;
        let Ok(ws) = ws else { return false };
        let (wr, rd) = ws.split();
        let (rx, task) = reader(rd);
        self.conn = Some(Conn { wr, rx, task });
        self.ev("connections");
        true
    }

    fn pump(&mut self, exact: bool) -> bool {
        let mut active = false;
        while let Ok(m) = self.tap.try_recv() {
            active = true;
            match m {
                WSClientOut::Message(t) => {
                    self.ev("down");
                    let want = self.down.pop_front();
                    if want.as_ref() != Some(&t) {
                        self.bad("client-message-differs", json!({"got": info(&t), "want": want.map(|w| info(&w))}));
                    }
                }
                WSClientOut::Disconnect => self.disconnects += 1,
                _ => {}
            }
        }
        while let Some(Ok(r)) = self.conn.as_mut().map(|c| c.rx.try_recv()) {
            active = true;
            match r {
                Read::Text(t) => {
                    self.ev("up");
                    if exact {
                        let want = self.up.pop_front();
                        if want.as_ref() != Some(&t) {
                            self.bad("server-message-differs", json!({"got": info(&t), "want": want.map(|w| info(&w))}));
                        }
                    } else {
                        // Some were lost, but order and content stay.
                        while let Some(w) = self.up.pop_front() {
                            if w == t {
                                break;
                            }
                            if self.up.is_empty() {
                                self.bad("server-message-unknown", json!({"got": info(&t)}));
                            }
                        }
                    }
                }
                Read::End => {
                    self.conn = None;
                    break;
                }
            }
        }
        active
    }

    async fn flush(&mut self) {
        let mut last = Instant::now();
        while self.bad.is_none() {
            if self.pump(true) {
                last = Instant::now();
                continue;
            }
            if self.conn.is_none() {
                return self.bad("connection-closed", json!({"up": self.up.len(), "down": self.down.len()}));
            }
            if self.up.is_empty() && self.down.is_empty() {
                return;
            }
            if last.elapsed() > LONG {
                self.bad("message-lost", json!({"up": self.up.len(), "down": self.down.len()}));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }

    async fn traffic(&mut self, rng: &mut StdRng) {
        for _ in 0..rng.gen_range(1..12) {
            let t = rnd_text(rng);
            if rng.gen() {
                self.up.push_back(t.clone());
                self.client.emit_msg_in(WSClientIn::Message(t)).expect("emit to client");
            } else {
                self.down.push_back(t.clone());
                if let Some(c) = self.conn.as_mut() {
                    let r = tokio::time::timeout(LONG, c.wr.send(Message::Text(t.into()))).await;
                    if !matches!(r, Ok(Ok(()))) {
                        self.bad("connection-broken", json!({"error": format!("{r:?}")}));
                    }
                }
            }
        }
        if rng.gen_range(0..4) > 0 {
            self.flush().await;
        }
    }

    /// The server ends the connection in some way.
    async fn drop_conn(&mut self, rng: &mut StdRng) {
        self.flush().await;
        let Some(mut c) = self.conn.take() else { return };
        self.ev("drops");
        match rng.gen_range(0..4) {
            0 => {
                let _ = c.wr.send(Message::Close(None)).await;
                c.task.abort();
            }
            1 => {
                // Close, and wait for the answer of the client.
                let _ = c.wr.send(Message::Close(None)).await;
                let start = Instant::now();
                while start.elapsed() < Duration::from_secs(3) {
                    match c.rx.try_recv() {
                        Ok(Read::End) => break,
                        _ => tokio::time::sleep(Duration::from_millis(2)).await,
                    }
                }
                c.task.abort();
            }
            2 => {
                c.task.abort();
            }
            _ => {
                c.task.abort();
                let _ = c.task.await;
            }
        }
    }
}

fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    if f.len() < 13 {
        return 0.;
    }
    (f[11].parse::<f64>().unwrap_or(0.) + f[12].parse::<f64>().unwrap_or(0.)) / 100.
}

type Events = BTreeMap<&'static str, u64>;

/// Some clients at the same time, as they mostly wait.
async fn w04_batch(rng: &mut StdRng, n: usize) -> anyhow::Result<(Option<Bad>, Events)> {
    let mut tasks = vec![];
    for _ in 0..n {
        let mut rng = StdRng::seed_from_u64(rng.gen());
        tasks.push(tokio::spawn(async move { w04_case(&mut rng).await }));
    }
    let mut ev = Events::new();
    let mut bad = None;
    let mut keep = vec![];
    for t in tasks {
        let (b, r) = t.await??;
        for (e, n) in &r.ev {
            *ev.entry(*e).or_insert(0) += n;
        }
        if bad.is_none() {
            bad = b;
        }
        keep.push(r);
    }
    if bad.is_none() {
        // All clients are disconnected now, and nothing happens anymore.
        for r in keep.iter_mut() {
            r.client.emit_msg_in(WSClientIn::Disconnect)?;
        }
        tokio::time::sleep(Duration::from_millis(200)).await;
        let (cpu0, t0) = (cpu(), Instant::now());
        tokio::time::sleep(Duration::from_millis(800)).await;
        let used = (cpu() - cpu0) / t0.elapsed().as_secs_f64();
        if used > 0.5 {
            bad = Some(("busy-while-idle".into(), json!({"cpu": used})));
        }
    }
    Ok((bad, ev))
}

async fn w04_case(rng: &mut StdRng) -> anyhow::Result<(Option<Bad>, Remote)> {
    let listener = TcpListener::bind("127.0.0.1:0").await?;
    let port = listener.local_addr()?.port();
    let mut client = WebSocketClient::connect(&format!("ws://127.0.0.1:{port}")).await?;
    let (tap, _) = client.get_tap_out().await?;
    let mut r = Remote {
        port,
        listener: Some(listener),
        client,
        tap,
        conn: None,
        up: VecDeque::new(),
        down: VecDeque::new(),
        disconnects: 0,
        bad: None,
        ev: BTreeMap::new(),
    };
    if !r.accept(LONG).await {
        r.bad("client-does-not-connect", json!({}));
    }
    for _ in 0..rng.gen_range(3..7) {
        if r.bad.is_some() {
            break;
        }
        for _ in 0..rng.gen_range(0..4) {
            r.traffic(rng).await;
        }
        if r.bad.is_some() {
            break;
        }
        match rng.gen_range(0..7) {
            0 | 1 => {
                // The connection breaks, sometimes while the client sends: it connects again.
                r.drop_conn(rng).await;
                if rng.gen() {
                    for _ in 0..rng.gen_range(1..10) {
                        let t = rnd_text(rng);
                        r.up.push_back(t.clone());
                        r.client.emit_msg_in(WSClientIn::Message(t))?;
                        if rng.gen_range(0..3) == 0 {
                            tokio::time::sleep(Duration::from_millis(rng.gen_range(0..20))).await;
                        }
                    }
                }
                if !r.accept(LONG).await {
                    r.bad("client-does-not-reconnect", json!({}));
                    break;
                }
                // There may come another connection, if the first one was set up because of a message.
                let mut last = Instant::now();
                while last.elapsed() < Duration::from_millis(1300) && r.bad.is_none() {
                    if r.pump(false) {
                        last = Instant::now();
                    }
                    if r.accept(Duration::from_millis(5)).await {
                        last = Instant::now();
                    }
                }
                r.up.clear();
                if r.conn.is_none() {
                    r.bad("no-connection-left", json!({}));
                }
                r.ev("reconnected");
            }
            2 => {
                // The server is away for a while; the client tries again when it has to send something.
                r.flush().await;
                r.listener = None;
                r.drop_conn(rng).await;
                tokio::time::sleep(Duration::from_millis(rng.gen_range(0..1500))).await;
                for _ in 0..rng.gen_range(0..3) {
                    r.client.emit_msg_in(WSClientIn::Message("lost".into()))?;
                }
                tokio::time::sleep(Duration::from_millis(rng.gen_range(0..100))).await;
                r.listen().await?;
                let mut ok = false;
                for _ in 0..40 {
                    r.client.emit_msg_in(WSClientIn::Message("wake up".into()))?;
                    if r.accept(Duration::from_millis(500)).await {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    r.bad("client-does-not-come-back", json!({}));
                    break;
                }
                let mut last = Instant::now();
                while last.elapsed() < Duration::from_millis(1300) && r.bad.is_none() {
                    while let Some(Ok(m)) = r.conn.as_mut().map(|c| c.rx.try_recv()) {
                        last = Instant::now();
                        if matches!(m, Read::End) {
                            r.conn = None;
                        }
                    }
                    if r.accept(Duration::from_millis(5)).await {
                        last = Instant::now();
                    }
                }
                if r.conn.is_none() {
                    r.bad("no-connection-left", json!({}));
                }
                r.ev("came-back");
            }
            3 => {
                // Connect is also a reset.
                r.flush().await;
                if r.bad.is_some() {
                    break;
                }
                r.client.emit_msg_in(WSClientIn::Connect)?;
                if !r.accept(LONG).await {
                    r.bad("no-reset", json!({}));
                }
                r.ev("resets");
            }
            4 => {
                // Disconnect: nothing more happens, until it's told to connect.
                r.flush().await;
                if r.bad.is_some() {
                    break;
                }
                let before = r.disconnects;
                r.client.emit_msg_in(WSClientIn::Disconnect)?;
                if rng.gen_range(0..3) == 0 {
                    r.client.emit_msg_in(WSClientIn::Disconnect)?;
                }
                let start = Instant::now();
                while (r.conn.is_some() || r.disconnects == before) && r.bad.is_none() {
                    r.pump(true);
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    if start.elapsed() > LONG {
                        r.bad("disconnect-does-not-end", json!({"connected": r.conn.is_some(), "reported": r.disconnects - before}));
                    }
                }
                let send_after: bool = rng.gen();
                if send_after {
                    for _ in 0..3 {
                        r.client.emit_msg_in(WSClientIn::Message("not to be sent".into()))?;
                    }
                }
                let wait = rng.gen_range(300..1600);
                if r.accept(Duration::from_millis(wait)).await && r.bad.is_none() {
                    r.bad("reconnected-after-disconnect", json!({"sent": send_after}));
                }
                r.client.emit_msg_in(WSClientIn::Connect)?;
                if r.bad.is_none() && !r.accept(LONG).await {
                    r.bad("client-does-not-connect-again", json!({}));
                }
                r.ev("disconnects");
            }
            5 => {
                // Disconnect and connect at once: the last command counts.
                r.flush().await;
                if r.bad.is_some() {
                    break;
                }
                r.client.emit_msg_in(WSClientIn::Disconnect)?;
                r.client.emit_msg_in(WSClientIn::Connect)?;
                if !r.accept(LONG).await {
                    r.bad("connect-after-disconnect-ignored", json!({}));
                }
                r.ev("disconnects-and-connects");
            }
            _ => {
                r.flush().await;
                if let Some(c) = r.conn.as_mut() {
                    let _ = c.wr.send(Message::Ping(vec![1, 2, 3].into())).await;
                    let _ = c.wr.send(Message::Binary(vec![1, 2, 3].into())).await;
                }
            }
        }
    }
    if r.bad.is_none() {
        r.flush().await;
        for _ in 0..3 {
            r.traffic(rng).await;
        }
        r.flush().await;
    }
    Ok((r.bad.take(), r))
}

fn w04(mon: &mut Mon) {
    mon.rule("each case runs some clients at the same time: a client whose server is played by the monitor on a loopback port; texts in both directions, the server closes, vanishes, or is away for a while, also while the client sends; resets and disconnections by the user.");
    for (e, n) in [("connections", 50), ("up", 100), ("down", 100), ("drops", 20), ("reconnected", 10), ("came-back", 5), ("disconnects", 5), ("resets", 5)] {
        mon.require(e, n);
    }
    let n = mon.n(3, 60);
    for i in 0..n {
        let Some(mut rng) = mon.begin(format!("clients{i}")) else { continue };
        // A client which never stops keeps a whole thread busy.
        let rt = rt_multi(48);
        match drive(&rt, 400, w04_batch(&mut rng, 12)) {
            Some(Ok((bad, ev))) => {
                mon.nontrivial(format!("{ev:?}"));
                for (e, n) in &ev {
                    mon.count(e, *n);
                }
                if let Some((sig, v)) = bad {
                    mon.violation(&sig, v);
                }
                mon.sample(json!(ev));
            }
            Some(Err(e)) => mon.violation("operation-failed", json!({"error": e.to_string()})),
            None => mon.violation("history-never-ends", json!({})),
        }
        rt.shutdown_timeout(Duration::from_millis(200));
        mon.check_panics("client");
        if mon.failed() {
            return;
        }
    }
}

fn main() {
    main_with(|mon, id| match id {
        "W03" => w03(mon),
        "W04" => w04(mon),
        _ => panic!("unknown property {id}"),
    })
}
