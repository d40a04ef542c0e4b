//! W01: texts over the connections between two nodes; W02: hostile packets on these connections.
use std::{
    collections::{BTreeMap, VecDeque},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, DataChannelState, PeerMessage, WebRTCInput, WebRTCOutput, WebRTCSpawner},
        node_connection::{Direction, NCInput, NCOutput},
        BrokerWebRTCConn, WebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use mon::{
    drive, main_with, rt_multi,
    util::{pick, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use tokio::sync::mpsc::UnboundedReceiver;

type Bad = (String, Value);

/// The biggest message a WebRTC data channel takes.
const MAX_MESSAGE: usize = 65536;
const IN: usize = 0;
const OUT: usize = 1;

fn rnd_id(rng: &mut StdRng) -> U256 {
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    U256::from(a)
}

/// Stands for the WebRTC system of one direction of a connection.
struct Side {
    fake: Broker<WebRTCInput, WebRTCOutput>,
    tap: UnboundedReceiver<WebRTCInput>,
    setups: VecDeque<PeerMessage>,
    disconnects: usize,
}

type Spawned = Arc<Mutex<Vec<Side>>>;

fn spawner() -> (WebRTCSpawner, Spawned) {
    let list: Spawned = Arc::default();
    let list2 = list.clone();
    (
        Box::new(move || {
            let list = list2.clone();
            Box::new(Box::pin(async move {
                let mut fake = Broker::new();
                let (tap, _) = fake.get_tap_in().await?;
                list.lock().unwrap().push(Side {
                    fake: fake.clone(),
                    tap,
                    setups: VecDeque::new(),
                    disconnects: 0,
                });
                Ok(fake)
            }))
        }),
        list,
    )
}

/// One of the nodes, with its connections to the others.
struct Node {
    id: NodeID,
    conn: BrokerWebRTCConn,
    tap: UnboundedReceiver<WebRTCConnOut>,
    spawned: Spawned,
}

impl Node {
    async fn new(rng: &mut StdRng) -> anyhow::Result<Self> {
        let (sp, spawned) = spawner();
        let mut conn = WebRTCConn::new(sp).await?;
        let (tap, _) = conn.get_tap_out().await?;
        Ok(Self {
            id: rnd_id(rng),
            conn,
            tap,
            spawned,
        })
    }
}

/// The end of a connection: (node, index of the peer).
struct End {
    sides: Option<[Side; 2]>,
    /// What was sent from here and did not arrive yet.
    sent: VecDeque<String>,
    connected: [usize; 2],
    disconnected: [usize; 2],
    states: [usize; 2],
    setups: [VecDeque<PeerMessage>; 2],
}

impl End {
    fn new() -> Self {
        Self {
            sides: None,
            sent: VecDeque::new(),
            connected: [0; 2],
            disconnected: [0; 2],
            states: [0; 2],
            setups: Default::default(),
        }
    }
}

fn dir(d: usize) -> Direction {
    if d == IN {
        Direction::Incoming
    } else {
        Direction::Outgoing
    }
}

fn idx(d: &Direction) -> usize {
    match d {
        Direction::Incoming => IN,
        Direction::Outgoing => OUT,
    }
}

/// A hub (end 0) connected to peers (end 1): every peer has two links, link 0 is outgoing
/// for the hub, link 1 is outgoing for the peer.
struct World {
    hub: Node,
    peers: Vec<Node>,
    ends: Vec<[End; 2]>,
    up: Vec<[bool; 2]>,
    shuffle: bool,
    held: Vec<[[Vec<String>; 2]; 2]>,
    bad: Option<Bad>,
    texts: u64,
    packets: u64,
    biggest: usize,
    last: Instant,
    /// One part of every text which was sent in parts: peer, receiving end, direction.
    parts: BTreeMap<String, (usize, usize, usize, String)>,
    extra: BTreeMap<&'static str, u64>,
}

fn text_info(t: &str) -> Value {
    json!({"len": t.len(), "chars": t.chars().count(), "start": t.chars().take(40).collect::<String>(),
        "end": t.chars().rev().take(10).collect::<String>()})
}

fn link_of(end: usize, d: usize) -> usize {
    // hub: outgoing = 0, incoming = 1; peer: outgoing = 1, incoming = 0.
    if (end == 0) == (d == OUT) {
        0
    } else {
        1
    }
}

fn dir_of(end: usize, link: usize) -> usize {
    if (end == 0) == (link == 0) {
        OUT
    } else {
        IN
    }
}

impl World {
    async fn new(rng: &mut StdRng, n: usize) -> anyhow::Result<Self> {
        let hub = Node::new(rng).await?;
        let mut peers = vec![];
        for _ in 0..n {
            peers.push(Node::new(rng).await?);
        }
        Ok(Self {
            hub,
            ends: (0..n).map(|_| [End::new(), End::new()]).collect(),
            up: vec![[false; 2]; n],
            held: (0..n).map(|_| Default::default()).collect(),
            peers,
            shuffle: false,
            bad: None,
            texts: 0,
            packets: 0,
            biggest: 0,
            last: Instant::now(),
            parts: BTreeMap::new(),
            extra: BTreeMap::new(),
        })
    }

    fn bad(&mut self, sig: &str, v: Value) {
        if self.bad.is_none() {
            self.bad = Some((sig.into(), v));
        }
    }

    fn emit(&mut self, p: usize, end: usize, msg: impl FnOnce(NodeID) -> WebRTCConnIn) {
        let hub_id = self.hub.id;
        let r = if end == 0 {
            let id = self.peers[p].id;
            self.hub.conn.emit_msg_in(msg(id))
        } else {
            self.peers[p].conn.emit_msg_in(msg(hub_id))
        };
        r.expect("emit to WebRTCConn");
    }

    fn text(&mut self, p: usize, end: usize, t: String) {
        self.ends[p][end].sent.push_back(t.clone());
        self.texts += 1;
        self.emit(p, end, |id| WebRTCConnIn::Message(id, NCInput::Text(t)));
    }

    fn fake(&mut self, p: usize, end: usize, d: usize, msg: WebRTCOutput) {
        self.ends[p][end].sides.as_mut().unwrap()[d]
            .fake
            .emit_msg_out(msg)
            .expect("emit to WebRTC");
    }

    /// Creates the connection of one end.
    async fn create(&mut self, rng: &mut StdRng, p: usize, end: usize) {
        if self.ends[p][end].sides.is_some() {
            return;
        }
        let connect = rng.gen();
        if connect {
            self.emit(p, end, WebRTCConnIn::Connect);
        } else {
            let t = rnd_text(rng);
            self.text(p, end, t);
        }
        let spawned = if end == 0 {
            self.hub.spawned.clone()
        } else {
            self.peers[p].spawned.clone()
        };
        let start = Instant::now();
        while spawned.lock().unwrap().len() < 2 {
            if start.elapsed() > Duration::from_secs(20) {
                self.bad("no-connection-created", json!({"connect": connect}));
                return;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let mut s = std::mem::take(&mut *spawned.lock().unwrap()).into_iter();
        let inc = s.next().unwrap();
        let mut out = s.next().unwrap();
        if connect {
            out.setups.push_back(PeerMessage::Init);
        }
        self.ends[p][end].sides = Some([inc, out]);
    }

    fn forward(&mut self, p: usize, end: usize, link: usize, t: String) {
        let to = 1 - end;
        if t.contains("\"total\"") {
            if let Ok(v) = serde_json::from_str::<Value>(&t) {
                if v["total"].is_number() {
                    self.parts.insert(v["id"].to_string(), (p, to, dir_of(to, link), t.clone()));
                }
            }
        }
        self.fake(p, to, dir_of(to, link), WebRTCOutput::Text(t));
    }

    /// Moves what there is to move; returns whether there was something.
    fn pump(&mut self) -> bool {
        let mut active = false;
        for p in 0..self.peers.len() {
            for end in 0..2 {
                for d in 0..2 {
                    while let Some(m) = self.ends[p][end].sides.as_mut().and_then(|s| s[d].tap.try_recv().ok()) {
                        active = true;
                        let link = link_of(end, d);
                        match m {
                            WebRTCInput::Text(t) => {
                                self.packets += 1;
                                self.biggest = self.biggest.max(t.len());
                                if t.len() > MAX_MESSAGE {
                                    self.bad("packet-too-big", json!({"packet": text_info(&t)}));
                                }
                                if !self.up[p][link] {
                                    self.bad("sent-while-not-connected", json!({"end": end, "link": link}));
                                } else if self.shuffle {
                                    self.held[p][end][link].push(t);
                                } else {
                                    self.forward(p, end, link, t);
                                }
                            }
                            WebRTCInput::Setup(pm) => {
                                let want = self.ends[p][end].sides.as_mut().unwrap()[d].setups.pop_front();
                                if want.as_ref() != Some(&pm) {
                                    self.bad(
                                        "setup-differs",
                                        json!({"end": end, "dir": d, "got": format!("{pm:?}"), "want": format!("{want:?}")}),
                                    );
                                }
                            }
                            WebRTCInput::Disconnect => self.ends[p][end].sides.as_mut().unwrap()[d].disconnects += 1,
                            _ => {}
                        }
                    }
                }
            }
        }
        while let Ok(WebRTCConnOut::Message(id, m)) = self.hub.tap.try_recv() {
            active = true;
            match self.peers.iter().position(|n| n.id == id) {
                Some(p) => self.arrived(p, 0, m),
                None => self.bad("message-of-unknown-node", json!({"msg": format!("{m}")})),
            }
        }
        for p in 0..self.peers.len() {
            while let Ok(WebRTCConnOut::Message(id, m)) = self.peers[p].tap.try_recv() {
                active = true;
                if id == self.hub.id {
                    self.arrived(p, 1, m);
                } else {
                    self.bad("message-of-unknown-node", json!({"msg": format!("{m}")}));
                }
            }
        }
        if active {
            self.last = Instant::now();
        }
        active
    }

    fn arrived(&mut self, p: usize, end: usize, m: NCOutput) {
        match m {
            NCOutput::Connected(d) => self.ends[p][end].connected[idx(&d)] += 1,
            NCOutput::State(d, _) => self.ends[p][end].states[idx(&d)] += 1,
            NCOutput::Disconnected(d) => self.ends[p][end].disconnected[idx(&d)] += 1,
            NCOutput::Setup(d, pm) => {
                let want = self.ends[p][end].setups[idx(&d)].pop_front();
                if want.as_ref() != Some(&pm) {
                    self.bad(
                        "setup-reported-differs",
                        json!({"end": end, "dir": format!("{d}"), "got": format!("{pm:?}"), "want": format!("{want:?}")}),
                    );
                }
            }
            NCOutput::Text(t) => {
                let sent = &mut self.ends[p][1 - end].sent;
                match sent.iter().position(|s| *s == t) {
                    Some(0) => {
                        sent.pop_front();
                    }
                    Some(n) => {
                        sent.remove(n);
                        if !self.shuffle {
                            self.bad("text-out-of-order", json!({"text": text_info(&t), "before": n}));
                        }
                    }
                    None => {
                        let front = sent.front().map(|t| text_info(t));
                        self.bad("text-not-sent", json!({"got": text_info(&t), "next": front}));
                    }
                }
            }
            _ => {}
        }
    }

    fn connected(&self, p: usize) -> bool {
        self.up[p].iter().any(|u| *u)
    }

    /// Waits until everything which can arrive did.
    async fn flush(&mut self, rng: &mut StdRng) {
        let start = Instant::now();
        self.last = Instant::now();
        loop {
            if self.bad.is_some() {
                return;
            }
            if self.pump() {
                continue;
            }
            if self.shuffle && self.last.elapsed() > Duration::from_millis(15) {
                for p in 0..self.peers.len() {
                    for end in 0..2 {
                        for link in 0..2 {
                            let mut ts = std::mem::take(&mut self.held[p][end][link]);
                            ts.shuffle(rng);
                            for t in ts {
                                self.forward(p, end, link, t);
                                self.last = Instant::now();
                            }
                        }
                    }
                }
            }
            let open: Vec<usize> = (0..self.peers.len()).filter(|p| self.connected(*p)).collect();
            let texts: usize = open.iter().map(|p| self.ends[*p][0].sent.len() + self.ends[*p][1].sent.len()).sum();
            let setups: usize = self
                .ends
                .iter()
                .flatten()
                .map(|e| {
                    e.setups.iter().map(|s| s.len()).sum::<usize>()
                        + e.sides.iter().flatten().map(|s| s.setups.len()).sum::<usize>()
                })
                .sum();
            if texts + setups == 0 {
                return;
            }
            if self.last.elapsed() > Duration::from_secs(10) || start.elapsed() > Duration::from_secs(90) {
                let lost = open
                    .iter()
                    .flat_map(|p| self.ends[*p].iter())
                    .find_map(|e| e.sent.front())
                    .map(|t| text_info(t));
                self.bad(
                    if texts > 0 { "text-lost" } else { "setup-lost" },
                    json!({"texts": texts, "setups": setups, "lost": lost}),
                );
                return;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }

    async fn wait_for(&mut self, sig: &str, f: impl Fn(&Self) -> bool) {
        let start = Instant::now();
        while !f(self) && self.bad.is_none() {
            if !self.pump() {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if start.elapsed() > Duration::from_secs(20) {
                self.bad(sig, json!({}));
            }
        }
    }

    async fn set_link(&mut self, rng: &mut StdRng, p: usize, link: usize, up: bool) {
        for end in 0..2 {
            self.create(rng, p, end).await;
        }
        self.flush(rng).await;
        if self.bad.is_some() || self.up[p][link] == up {
            return;
        }
        let mut order = [0, 1];
        order.shuffle(rng);
        let before: Vec<usize> = (0..2)
            .map(|e| {
                let d = dir_of(e, link);
                if up { self.ends[p][e].connected[d] } else { self.ends[p][e].disconnected[d] }
            })
            .collect();
        if up {
            self.up[p][link] = true;
        }
        for end in order {
            let msg = match (up, rng.gen_range(0..3)) {
                (true, _) => WebRTCOutput::Connected,
                (false, 0) => WebRTCOutput::Error("gone".into()),
                (false, _) => WebRTCOutput::Disconnected,
            };
            self.fake(p, end, dir_of(end, link), msg);
        }
        self.wait_for("connection-change-not-reported", |w| {
            (0..2).all(|e| {
                let d = dir_of(e, link);
                let now = if up { w.ends[p][e].connected[d] } else { w.ends[p][e].disconnected[d] };
                now > before[e]
            })
        })
        .await;
        self.up[p][link] = up;
    }
}

fn rnd_text(rng: &mut StdRng) -> String {
    const SIZES: &[usize] = &[0, 1, 2, 3, 10, 50, 200, 1000, 4095, 8192, 10922, 10923, 16383, 16384, 16385, 21845];
    const BIG: &[usize] = &[32767, 32768, 32769, 49151, 49152, 49153, 65535, 65536, 65537, 100_000, 163840];
    let len = match rng.gen_range(0..12) {
        0..=6 => *pick(rng, SIZES),
        7 | 8 => *pick(rng, BIG),
        9 if rng.gen_range(0..6) == 0 => rng.gen_range(200_000..600_000),
        _ => rng.gen_range(0..100),
    };
    let one = |rng: &mut StdRng| -> char {
        *pick(
            rng,
            &['a', '"', '\\', '\n', '\u{0}', '\u{1b}', '\u{7f}', '\u{85}', '\u{9f}', '\u{e9}', '\u{4e16}', '\u{1F600}', '\u{2028}', '\u{feff}',
                '\u{fffe}', '\u{fffd}', '\u{10ffff}', '\u{d7ff}', '\u{a0}', ' ', '\t', '\r'],
        )
    };
    match rng.gen_range(0..7) {
        0 => (0..len).map(|_| rng.gen_range('a'..='z')).collect(),
        1 => {
            let c = one(rng);
            std::iter::repeat(c).take(len).collect()
        }
        2 => (0..len).map(|_| one(rng)).collect(),
        3 => rnd_string(rng, len),
        4 => (0..len).map(|_| rng.gen::<char>()).collect(),
        5 => {
            // Things which look like something else.
            let t = pick(
                rng,
                &["null", "~", "true", "123", "1e3", "---", "- a", "a: b", "{data: x}", "&a *a", "!!str x", "'", "\"", "|", "> x", "%YAML 1.2",
                    "{\"data\":\"x\"}", "{\"id\":null}", " lead", "trail ", "\ttab", "# c", "\r\n", "\u{feff}x", "[]", "...", "0x10", "\\u0041"],
            );
            t.to_string()
        }
        _ => {
            // Mostly one byte per character, but some with more at the places where texts may be cut.
            let mut v: Vec<char> = (0..len).map(|i| if i % 7 == 0 { ' ' } else { 'x' }).collect();
            for b in [4096usize, 8192, 16384, 32768, 65536] {
                for o in 0..4 {
                    if b + o > 2 && b + o - 2 < v.len() {
                        v[b + o - 2] = one(rng);
                    }
                }
            }
            v.into_iter().collect()
        }
    }
}

async fn w01_case(rng: &mut StdRng, mon_steps: usize) -> anyhow::Result<(Option<Bad>, World, u64)> {
    let n = rng.gen_range(1..4);
    let mut w = World::new(rng, n).await?;
    w.shuffle = rng.gen_range(0..3) == 0;
    let mut queued = 0;
    for _ in 0..mon_steps {
        if w.bad.is_some() {
            break;
        }
        let p = rng.gen_range(0..n);
        let end = rng.gen_range(0..2);
        match rng.gen_range(0..15) {
            0..=5 => {
                w.create(rng, p, end).await;
                for _ in 0..rng.gen_range(1..6) {
                    if !w.connected(p) {
                        queued += 1;
                    }
                    let end = if rng.gen_range(0..3) == 0 && w.ends[p][1 - end].sides.is_some() { 1 - end } else { end };
                    let t = rnd_text(rng);
                    w.text(p, end, t);
                    if rng.gen_range(0..4) == 0 {
                        w.pump();
                    }
                }
            }
            6..=9 => {
                let link = rng.gen_range(0..2);
                let up = !w.up[p][link] || rng.gen_range(0..4) == 0;
                w.set_link(rng, p, link, up).await;
            }
            10 => {
                // The state of a connection which is up.
                let d = rng.gen_range(0..2);
                if w.up[p][link_of(end, d)] {
                    w.fake(
                        p,
                        end,
                        d,
                        WebRTCOutput::State(ConnectionStateMap {
                            data_connection: Some(DataChannelState::Open),
                            rx_bytes: rng.gen(),
                            ..Default::default()
                        }),
                    );
                }
            }
            11 => {
                let d = rng.gen_range(0..2);
                if w.ends[p][end].sides.is_some() {
                    for _ in 0..rng.gen_range(1..4) {
                        let len = rng.gen_range(0..20);
                        let s = rnd_string(rng, len);
                        let pm = match rng.gen_range(0..3) {
                            0 => PeerMessage::Offer(s),
                            1 => PeerMessage::Answer(s),
                            _ => PeerMessage::IceCandidate(s),
                        };
                        if rng.gen() {
                            // With an outgoing setup a connection which is open would not be open anymore.
                            w.ends[p][end].sides.as_mut().unwrap()[d].setups.push_back(pm.clone());
                            w.emit(p, end, |id| WebRTCConnIn::Message(id, NCInput::Setup(dir(d), pm)));
                        } else {
                            w.ends[p][end].setups[d].push_back(pm.clone());
                            w.fake(p, end, d, WebRTCOutput::Setup(pm));
                        }
                    }
                }
            }
            12 if w.ends[p][end].sides.is_some() => {
                // Disconnecting reaches both directions, and then both nodes see it.
                w.flush(rng).await;
                if w.bad.is_some() {
                    break;
                }
                let before: Vec<usize> = (0..2).map(|d| w.ends[p][end].sides.as_ref().unwrap()[d].disconnects).collect();
                w.emit(p, end, WebRTCConnIn::Disconnect);
                w.wait_for("disconnect-not-passed", |w| {
                    (0..2).all(|d| w.ends[p][end].sides.as_ref().unwrap()[d].disconnects > before[d])
                })
                .await;
                for link in 0..2 {
                    w.set_link(rng, p, link, false).await;
                }
            }
            14 => {
                // A direction which isn't open tells about its progress, or fails once more.
                let d = rng.gen_range(0..2);
                if w.ends[p][end].sides.is_some() && !w.up[p][link_of(end, d)] {
                    w.flush(rng).await;
                    if rng.gen() {
                        let dc = *pick(rng, &[DataChannelState::Connecting, DataChannelState::Closing, DataChannelState::Closed]);
                        let state = ConnectionStateMap {
                            data_connection: (rng.gen_range(0..4) > 0).then_some(dc),
                            ..Default::default()
                        };
                        let before = w.ends[p][end].states[d];
                        w.fake(p, end, d, WebRTCOutput::State(state));
                        w.wait_for("state-not-reported", |w| w.ends[p][end].states[d] > before).await;
                        *w.extra.entry("states-not-open").or_default() += 1;
                    } else {
                        let before = w.ends[p][end].disconnected[d];
                        let msg = if rng.gen() { WebRTCOutput::Disconnected } else { WebRTCOutput::Error("again".into()) };
                        w.fake(p, end, d, msg);
                        w.wait_for("connection-change-not-reported", |w| w.ends[p][end].disconnected[d] > before).await;
                        *w.extra.entry("failed-again").or_default() += 1;
                        if !w.ends[p][end].sent.is_empty() {
                            *w.extra.entry("failed-with-queue").or_default() += 1;
                        }
                    }
                }
            }
            13 => {
                let id = rnd_id(rng);
                w.hub.conn.emit_msg_in(WebRTCConnIn::Disconnect(id))?;
            }
            _ => w.flush(rng).await,
        }
    }
    for p in 0..n {
        if !w.connected(p) && w.bad.is_none() {
            let link = rng.gen_range(0..2);
            w.set_link(rng, p, link, true).await;
        }
    }
    w.flush(rng).await;
    // Nothing may arrive twice.
    tokio::time::sleep(Duration::from_millis(10)).await;
    w.pump();
    Ok((w.bad.take(), w, queued))
}

fn w01(mon: &mut Mon) {
    mon.rule("one case per history: 1..3 peers of a node, whose WebRTC systems are replaced by the monitor, texts of 0..600'000 characters of all kinds in both directions, 20..40 steps with links coming up and going down, setup messages, and disconnections; a third of the histories shuffles the packets");
    mon.require("texts", 100);
    mon.require("split-texts", 20);
    mon.require("queued-texts", 10);
    mon.require("shuffled-histories", 3);
    mon.require("states-not-open", 8);
    mon.require("failed-again", 8);
    mon.require("failed-with-queue", 2);
    let n = mon.n(60, 1500);
    let mut biggest = 0;
    for i in 0..n {
        let Some(mut rng) = mon.begin(format!("history{i}")) else { continue };
        let steps = rng.gen_range(20..40);
        let rt = rt_multi(3);
        match drive(&rt, 300, w01_case(&mut rng, steps)) {
            Some(Ok((bad, w, queued))) => {
                mon.nontrivial((w.texts, w.packets, w.biggest));
                mon.count("texts", w.texts);
                mon.count("packets", w.packets);
                mon.count("split-texts", w.packets.saturating_sub(w.texts));
                mon.count("queued-texts", queued);
                mon.count("shuffled-histories", w.shuffle as u64);
                for (e, n) in &w.extra {
                    mon.count(e, *n);
                }
                biggest = biggest.max(w.biggest);
                if let Some((sig, v)) = bad {
                    mon.violation(&sig, v);
                }
                mon.sample(json!({"texts": w.texts, "packets": w.packets, "biggest": w.biggest}));
            }
            Some(Err(e)) => mon.violation("operation-failed", json!({"error": e.to_string()})),
            None => mon.violation("history-never-ends", json!({})),
        }
        rt.shutdown_background();
        mon.check_panics("conn");
        if mon.failed() {
            return;
        }
    }
    mon.count("biggest-packet", biggest as u64);
}

// ---------------------------------------------------------------- W02
fn hostile(rng: &mut StdRng) -> Vec<String> {
    let id = rnd_id(rng);
    let id2 = rnd_id(rng);
    let id_s = serde_json::to_string(&id).unwrap();
    let big = *pick(rng, &[1usize << 24, 1 << 27, 1 << 31, 1 << 34, 1 << 40, 1 << 58, usize::MAX, usize::MAX / 24, i64::MAX as usize]);
    let data = "hostile".repeat(rng.gen_range(0..5));
    let pkt = |id: &U256, part: Value, total: Value| json!({"id": id, "part": part, "total": total, "data": data}).to_string();
    match rng.gen_range(0..12) {
        0 => vec![pkt(&id, json!(0), json!(big))],
        1 => vec![pkt(&id, json!(big - 1), json!(big))],
        2 => vec![pkt(&id, json!(0), json!(0)), pkt(&id, json!(1), json!(0))],
        3 => vec![pkt(&id, json!(5), json!(2)), pkt(&id, json!(2), json!(2)), pkt(&id, json!(usize::MAX), json!(2))],
        4 => vec![pkt(&id, json!(0), json!(5)), pkt(&id, json!(1), json!(3)), pkt(&id, json!(0), json!(4))],
        5 => (1..rng.gen_range(3..30)).map(|i| pkt(&id, json!(i), json!(31))).collect(),
        6 => vec![pkt(&id, json!(-1), json!(-1)), pkt(&id, json!(1.5), json!(2)), pkt(&id, json!("0"), json!("1"))],
        7 => vec![
            String::new(),
            "{".into(),
            "null".into(),
            "[]".into(),
            "{}".into(),
            format!("{{\"id\":{id_s},\"part\":0,\"total\":2}}"),
            format!("{{\"id\":\"zz\",\"part\":0,\"total\":1,\"data\":\"{data}\"}}"),
            "{\"data\":5}".into(),
            "{\"data\":[\"hostile\"]}".into(),
        ],
        8 => {
            let len = rng.gen_range(0..200);
            let mut s = rnd_string(rng, len);
            s.insert(0, '@');
            vec![s]
        }
        9 => {
            // Deeply nested things.
            let n = *pick(rng, &[100usize, 1000, 20_000]);
            vec!["[".repeat(n), format!("{{\"data\":{}", "{\"a\":".repeat(n)), "- ".repeat(n), "{data: ".repeat(n)]
        }
        10 => {
            let mut s = "a0: &a0 [x,x,x,x,x,x,x,x,x,x]\n".to_string();
            for i in 1..9 {
                s += &format!("a{i}: &a{i} [{}]\n", vec![format!("*a{}", i - 1); 10].join(","));
            }
            vec![s + "part: 0\n"]
        }
        _ => vec![pkt(&id2, json!(1), json!(2)), pkt(&id, json!(0), json!(2)), pkt(&id2, json!(1), json!(2)), pkt(&id, json!(0), json!(2))],
    }
}

fn hwm_kb() -> u64 {
    std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("VmHWM"))
                .and_then(|l| l.split_whitespace().nth(1)?.parse().ok())
        })
        .unwrap_or(0)
}

async fn w02_case(rng: &mut StdRng) -> anyhow::Result<(Option<Bad>, u64, u64, u64)> {
    let n = rng.gen_range(1..3);
    let mut w = World::new(rng, n).await?;
    let mut packets = 0;
    for p in 0..n {
        let link = rng.gen_range(0..2);
        w.set_link(rng, p, link, true).await;
    }
    for _ in 0..rng.gen_range(10..25) {
        if w.bad.is_some() {
            break;
        }
        let p = rng.gen_range(0..n);
        let end = rng.gen_range(0..2);
        for h in hostile(rng) {
            packets += 1;
            let d = rng.gen_range(0..2);
            w.fake(p, end, d, WebRTCOutput::Text(h));
        }
        for _ in 0..rng.gen_range(1..3) {
            let p = if rng.gen() { p } else { rng.gen_range(0..n) };
            let end = rng.gen_range(0..2);
            let t = rnd_text(rng);
            w.text(p, end, t);
        }
        if rng.gen() {
            w.flush(rng).await;
            // One part of a text which already arrived comes again.
            for (_, (p, end, d, t)) in std::mem::take(&mut w.parts) {
                w.fake(p, end, d, WebRTCOutput::Text(t));
                *w.extra.entry("parts-again").or_default() += 1;
            }
        }
    }
    w.flush(rng).await;
    tokio::time::sleep(Duration::from_millis(10)).await;
    w.pump();
    let again = w.extra.get("parts-again").cloned().unwrap_or(0);
    Ok((w.bad.take(), w.texts, packets, again))
}

fn w02(mon: &mut Mon) {
    mon.rule("one case per history: 1..2 peers of a node whose links are up; 10..24 groups of invalid, inconsistent, huge, or forever incomplete packets are injected between honest texts, which must all still arrive intact and once, with nothing else, without a panic, and with less than 400 MB of additional memory");
    mon.require("hostile-packets", 200);
    mon.require("parts-again", 10);
    mon.require("texts", 100);
    // A huge allocation shall fail instead of using up the machine's memory.
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    unsafe { setrlimit(RLIMIT_AS, &[6 << 30, 6 << 30]) };
    let base = hwm_kb();
    let n = mon.n(40, 1500);
    for i in 0..n {
        let Some(mut rng) = mon.begin(format!("hostile{i}")) else { continue };
        let rt = rt_multi(2);
        match drive(&rt, 300, w02_case(&mut rng)) {
            Some(Ok((bad, texts, packets, again))) => {
                mon.count("parts-again", again);
                mon.nontrivial((texts, packets));
                mon.count("texts", texts);
                mon.count("hostile-packets", packets);
                if let Some((sig, v)) = bad {
                    mon.violation(&sig, v);
                }
            }
            Some(Err(e)) => mon.violation("operation-failed", json!({"error": e.to_string()})),
            None => mon.violation("history-never-ends", json!({})),
        }
        rt.shutdown_background();
        mon.check_panics("conn");
        let grown = hwm_kb().saturating_sub(base);
        mon.check(grown < 400_000, "memory-grows", || json!({"kb": grown}));
        if mon.failed() {
            return;
        }
    }
}

fn main() {
    main_with(|mon, id| match id {
        "W01" => w01(mon),
        "W02" => w02(mon),
        _ => panic!("unknown property {id}"),
    })
}
