//! N01..N03: the signalling server; N04: the network module; N05: the router on top of it.
use std::collections::{BTreeMap, BTreeSet};

use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, PeerInfo, PeerMessage},
        node_connection::{Direction, NCInput, NCOutput},
        websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSServerIn, WSServerOut},
        BrokerWebRTCConn, WebRTCConnIn, WebRTCConnOut,
    },
};
use flmodules::{
    flo::realm::RealmID,
    network::{
        broker::{BrokerNetwork, Network, NetworkIn, NetworkOut},
        signal::{
            BrokerSignal, FledgerConfig, MessageAnnounce, NodeStat, SignalConfig, SignalIn, SignalOut, SignalServer,
            WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION,
        },
    },
    nodeconfig::{NodeConfig, NodeInfo},
    router::{
        broker::{BrokerRouter, RouterNetwork, RouterRandom},
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    random_connections::broker::{RandomIn, RandomOut},
    timer::{Timer, TimerMessage},
};
use mon::{
    drive, main_with, rt_current,
    util::{pick, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use tokio::sync::mpsc::UnboundedReceiver;

type Bad = (String, Value);
type B = [u8; 32];

fn bytes(id: &U256) -> B {
    let mut a = [0u8; 32];
    a.copy_from_slice(id.as_ref());
    a
}

fn rnd_id(rng: &mut StdRng) -> U256 {
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    U256::from(a)
}

fn rnd_peer_msg(rng: &mut StdRng) -> PeerMessage {
    let len = rng.gen_range(0..30);
    let s = rnd_string(rng, len);
    match rng.gen_range(0..4) {
        0 => PeerMessage::Init,
        1 => PeerMessage::Offer(s),
        2 => PeerMessage::Answer(s),
        _ => PeerMessage::IceCandidate(s),
    }
}

#[derive(Clone, Default)]
struct Conn {
    challenge: Option<U256>,
    announced: bool,
    id: Option<B>,
    /// Known to the server: not yet disconnected or removed
    alive: bool,
    idle: u16,
}

/// The signalling server, and what it should know.
struct Sig {
    broker: BrokerSignal,
    out: UnboundedReceiver<SignalOut>,
    conns: BTreeMap<usize, Conn>,
    /// id -> (connection, info)
    reg: BTreeMap<B, (usize, NodeInfo)>,
    next: usize,
    challenges: BTreeSet<B>,
    cfg: SignalConfig,
    /// All announcements ever sent
    announces: Vec<MessageAnnounce>,
}

#[derive(Debug)]
enum Got {
    To(usize, WSSignalMessageToNode),
    NewNode(NodeID),
    Stats(Vec<NodeStat>),
}

fn bad<T>(prop: &str, sig: &str, v: Value) -> Result<T, Bad> {
    Err((format!("{prop}:{sig}"), v))
}

impl Sig {
    async fn new(cfg: SignalConfig) -> Self {
        let mut broker = SignalServer::new(cfg.clone()).await.unwrap();
        let out = broker.get_tap_out().await.unwrap().0;
        Self {
            broker,
            out,
            conns: BTreeMap::new(),
            reg: BTreeMap::new(),
            next: 0,
            challenges: BTreeSet::new(),
            cfg,
            announces: vec![],
        }
    }

    async fn send(&mut self, m: SignalIn) -> Result<Vec<Got>, Bad> {
        self.broker.emit_msg_in(m).unwrap();
        self.broker.settle(vec![]).await.unwrap();
        let mut got = vec![];
        while let Ok(m) = self.out.try_recv() {
            match m {
                SignalOut::WSServer(WSServerIn::Message(i, s)) => match serde_json::from_str(&s) {
                    Ok(m) => got.push(Got::To(i, m)),
                    Err(e) => return bad("N01", "unreadable-message", json!({"msg": s, "error": e.to_string()})),
                },
                SignalOut::NewNode(id) => got.push(Got::NewNode(id)),
                SignalOut::NodeStats(s) => got.push(Got::Stats(s)),
                _ => {}
            }
        }
        for g in &got {
            if let Got::To(i, m) = g {
                // What is sent to whom at all
                let alive = self.conns.get(i).map(|c| c.alive).unwrap_or(false);
                let prop = match m {
                    WSSignalMessageToNode::PeerSetup(_) => "N02",
                    WSSignalMessageToNode::SystemConfig(_) => "N01",
                    _ => continue,
                };
                if !alive {
                    return bad(prop, "sent-to-dead-connection", json!({"to": i, "msg": m.to_string()}));
                }
            }
        }
        Ok(got)
    }

    async fn msg(&mut self, i: usize, m: &WSSignalMessageFromNode) -> Result<Vec<Got>, Bad> {
        self.raw(i, serde_json::to_string(m).unwrap()).await
    }

    async fn raw(&mut self, i: usize, s: String) -> Result<Vec<Got>, Bad> {
        if let Some(c) = self.conns.get_mut(&i) {
            c.idle = 0;
        }
        self.send(SignalIn::WSServer(WSServerOut::Message(i, s))).await
    }

    async fn connect(&mut self) -> Result<usize, Bad> {
        let i = self.next;
        self.next += 1;
        self.conns.insert(
            i,
            Conn {
                alive: true,
                ..Default::default()
            },
        );
        let got = self.send(SignalIn::WSServer(WSServerOut::NewConnection(i))).await?;
        match &got[..] {
            [Got::To(j, WSSignalMessageToNode::Challenge(v, c))] if *j == i && *v == SIGNAL_VERSION => {
                if !self.challenges.insert(bytes(c)) {
                    return bad("N01", "challenge-repeated", json!({}));
                }
                self.conns.get_mut(&i).unwrap().challenge = Some(*c);
            }
            _ => return bad("N01", "no-challenge", json!({"got": format!("{got:?}")})),
        }
        Ok(i)
    }

    fn forget(&mut self, i: usize) {
        if let Some(c) = self.conns.get_mut(&i) {
            c.alive = false;
            if let Some(id) = c.id.take() {
                if self.reg.get(&id).map(|r| r.0) == Some(i) {
                    self.reg.remove(&id);
                }
            }
        }
    }

    fn infos(&self) -> BTreeSet<B> {
        self.reg.keys().cloned().collect()
    }

    fn check_list(&self, list: &[NodeInfo]) -> Result<BTreeSet<B>, Bad> {
        let ids: BTreeSet<B> = list.iter().map(|n| bytes(&n.get_id())).collect();
        if ids.len() != list.len() {
            return bad("N03", "list-with-duplicates", json!({"list": list.len()}));
        }
        for n in list {
            match self.reg.get(&bytes(&n.get_id())) {
                None => return bad("N03", "listed-but-not-connected", json!({"node": n.get_id().to_string(), "registered": self.reg.len()})),
                // The comparison of NodeInfos only compares the ID
                Some((_, i)) if i.name != n.name || i.client != n.client || i.pubkey != n.pubkey || i.modules.bits() != n.modules.bits() => {
                    return bad("N03", "listed-wrong-info", json!({"have": n.name, "want": i.name}))
                }
                _ => {}
            }
        }
        Ok(ids)
    }
}

/// The kinds of announcements which must be refused
#[derive(Clone, Copy, Debug, PartialEq)]
enum Forge {
    None,
    OtherChallenge,
    OtherKey,
    StolenInfo,
    ShortSig,
    LongKey,
    BitFlip,
    Replay,
    WrongMsg,
    /// Valid for another connection
    Relayed,
}

fn announce(
    rng: &mut StdRng,
    who: &NodeConfig,
    other: &NodeConfig,
    challenge: &U256,
    old: &[MessageAnnounce],
    forge: Forge,
) -> MessageAnnounce {
    let mut ma = MessageAnnounce {
        version: SIGNAL_VERSION,
        challenge: *challenge,
        node_info: who.info.clone(),
        signature: who.sign(challenge.to_bytes()),
    };
    match forge {
        Forge::None | Forge::Relayed => {
            // The client doesn't have to repeat the challenge
            if rng.gen_bool(0.1) {
                ma.version = rng.gen_range(0..5);
            }
        }
        Forge::OtherChallenge => {
            let c = rnd_id(rng);
            ma.challenge = c;
            ma.signature = who.sign(c.to_bytes());
        }
        Forge::OtherKey => ma.signature = other.sign(challenge.to_bytes()),
        Forge::StolenInfo => {
            ma.node_info = other.info.clone();
        }
        Forge::ShortSig => ma.signature.truncate(rng.gen_range(0..64)),
        Forge::LongKey => {
            if rng.gen() {
                ma.node_info.pubkey.push(1)
            } else {
                let l = rng.gen_range(0..32);
                ma.node_info.pubkey.truncate(l)
            }
        }
        Forge::BitFlip => {
            let p = rng.gen_range(0..ma.signature.len());
            ma.signature[p] ^= 1 << rng.gen_range(0..8);
        }
        Forge::Replay => {
            if let Some(o) = old.choose(rng) {
                ma = o.clone();
                if rng.gen() {
                    ma.challenge = *challenge;
                }
            } else {
                ma.signature = vec![0; 64];
            }
        }
        Forge::WrongMsg => {
            let mut b = challenge.to_bytes();
            b[rng.gen_range(0..32)] ^= 1;
            ma.signature = who.sign(b);
        }
    }
    ma
}

async fn signal_case(mon: &mut Mon, rng: &mut StdRng, pool: &[NodeConfig]) -> Result<(), Bad> {
    let cfg = SignalConfig {
        ttl_minutes: *pick(rng, &[0, 1, 2, 3, 5, 200]),
        system_realm: match rng.gen() {
            true => Some(RealmID::from(bytes(&rnd_id(rng)))),
            false => None,
        },
        max_list_len: *pick(rng, &[None, None, Some(0), Some(1), Some(3), Some(100)]),
    };
    let mut s = Sig::new(cfg.clone()).await;
    let steps = rng.gen_range(10..150);
    let mut pool: Vec<NodeConfig> = pool.to_vec();
    let mut stats = BTreeMap::<&str, u64>::new();
    for step in 0..steps {
        let alive: Vec<usize> = s.conns.iter().filter(|c| c.1.alive).map(|c| *c.0).collect();
        let any: Vec<usize> = s.conns.keys().cloned().chain([s.next + 5]).collect();
        let i = match alive.len() > 0 && rng.gen_bool(0.9) {
            true => *pick(rng, &alive),
            false => *pick(rng, &any),
        };
        let c = s.conns.get(&i).cloned().unwrap_or_default();
        let me = c.id.filter(|id| c.alive && s.reg.get(id).map(|r| r.0) == Some(i));
        match rng.gen_range(0..20) {
            0..=2 => {
                s.connect().await?;
            }
            3..=7 => {
                // Announcements, mostly correct ones
                let w = rng.gen_range(0..pool.len());
                let o = (w + rng.gen_range(1..pool.len())) % pool.len();
                if rng.gen_bool(0.2) {
                    // It can change its name between two announcements.
                    pool[w].info.name = format!("name {step}");
                }
                let forge = match rng.gen_bool(0.6) {
                    true => Forge::None,
                    false => *pick(
                        rng,
                        &[
                            Forge::OtherChallenge,
                            Forge::OtherKey,
                            Forge::StolenInfo,
                            Forge::ShortSig,
                            Forge::LongKey,
                            Forge::BitFlip,
                            Forge::Replay,
                            Forge::WrongMsg,
                            Forge::Relayed,
                        ],
                    ),
                };
                // A connection which is gone, and never announced itself.
                let late: Vec<usize> = s.conns.iter().filter(|c| !c.1.alive && !c.1.announced).map(|c| *c.0).collect();
                let (i, c) = match late.is_empty() || rng.gen_bool(0.85) {
                    true => (i, c),
                    false => {
                        let i = *pick(rng, &late);
                        *stats.entry("late").or_default() += 1;
                        (i, s.conns[&i].clone())
                    }
                };
                let challenge = if forge == Forge::Relayed {
                    // The challenge of another connection which still has to announce itself.
                    let open: Vec<U256> =
                        s.conns.iter().filter(|o| *o.0 != i && o.1.alive && !o.1.announced).filter_map(|o| o.1.challenge).collect();
                    *stats.entry("relayed").or_default() += 1;
                    if open.is_empty() { rnd_id(rng) } else { *pick(rng, &open) }
                } else {
                    c.challenge.unwrap_or(rnd_id(rng))
                };
                let ma = announce(rng, &pool[w], &pool[o], &challenge, &s.announces, forge);
                if forge != Forge::Relayed {
                    // It would be valid where it belongs.
                    s.announces.push(ma.clone());
                }
                let ok = forge == Forge::None && c.alive && c.challenge.is_some() && !c.announced;
                let id = bytes(&ma.node_info.get_id());
                // A node which is already registered over another connection
                let old = s.reg.get(&id).map(|r| r.0);
                if ok {
                    s.reg.insert(id, (i, ma.node_info.clone()));
                    let c = s.conns.get_mut(&i).unwrap();
                    c.announced = true;
                    c.id = Some(id);
                }
                let got = s.msg(i, &WSSignalMessageFromNode::Announce(ma.clone())).await?;
                if !ok {
                    if got.len() > 0 {
                        return bad("N01", "forged-announcement-accepted", json!({"how": format!("{forge:?}"), "alive": c.alive, "announced": c.announced, "got": format!("{got:?}")}));
                    }
                    *stats.entry("refused").or_default() += 1;
                    continue;
                }
                *stats.entry("registered").or_default() += 1;
                let news: Vec<&NodeID> = got.iter().filter_map(|g| match g { Got::NewNode(n) => Some(n), _ => None }).collect();
                if news.len() != 1 || bytes(news[0]) != id {
                    return bad("N01", "not-registered", json!({"got": format!("{got:?}")}));
                }
                let mut configs = 0;
                let mut listed = BTreeSet::new();
                let mut told = 0;
                for g in &got {
                    match g {
                        Got::To(j, WSSignalMessageToNode::SystemConfig(FledgerConfig { system_realm })) => {
                            if *j != i || *system_realm != cfg.system_realm {
                                return bad("N01", "wrong-configuration", json!({"to": j}));
                            }
                            configs += 1;
                        }
                        Got::To(j, WSSignalMessageToNode::ListIDsReply(l)) => {
                            let ids = s.check_list(l)?;
                            if *j != i {
                                if !ids.contains(&id) {
                                    return bad("N03", "new-node-not-in-list", json!({"list": ids.len()}));
                                }
                                if !listed.insert(*j) {
                                    return bad("N03", "list-sent-twice", json!({}));
                                }
                            }
                        }
                        Got::To(j, WSSignalMessageToNode::Error(_)) => {
                            if Some(*j) != old || old == Some(i) {
                                return bad("N03", "wrong-node-told-to-leave", json!({"told": j, "old": old}));
                            }
                            told += 1;
                        }
                        Got::To(j, m) => return bad("N01", "unexpected-message", json!({"to": j, "msg": m.to_string()})),
                        _ => {}
                    }
                }
                if configs != 1 {
                    return bad("N01", "no-configuration", json!({"configs": configs}));
                }
                if old.is_some() && told != 1 {
                    return bad("N03", "old-connection-not-told", json!({"told": told}));
                }
                let others: BTreeSet<usize> = s.reg.values().map(|r| r.0).filter(|j| *j != i).collect();
                if listed != others {
                    return bad("N03", "not-announced-to-all", json!({"announced to": format!("{listed:?}"), "connected": format!("{others:?}")}));
                }
                if old.is_some() {
                    *stats.entry("replaced").or_default() += 1;
                    // The replaced connection has no identity any more.
                    if let Some(c) = s.conns.get_mut(&old.unwrap()) {
                        c.id = None;
                    }
                }
            }
            8 | 9 => {
                let got = s.msg(i, &WSSignalMessageFromNode::ListIDsRequest).await?;
                for g in &got {
                    match g {
                        Got::To(j, WSSignalMessageToNode::ListIDsReply(l)) if *j == i => {
                            let ids = s.check_list(l)?;
                            let max = cfg.max_list_len.unwrap_or(usize::MAX).min(s.reg.len());
                            if ids.len() != max {
                                return bad("N03", "wrong-length-of-list", json!({"have": ids.len(), "registered": s.reg.len(), "max": format!("{:?}", cfg.max_list_len)}));
                            }
                        }
                        _ => return bad("N03", "list-request-answered-wrongly", json!({"got": format!("{g:?}")})),
                    }
                }
                if me.is_some() && got.len() != 1 {
                    return bad("N03", "no-list", json!({"got": format!("{got:?}")}));
                }
                *stats.entry("lists").or_default() += 1;
            }
            10..=14 => {
                // Setup between nodes, from honest and other nodes
                let ids: Vec<B> = s.infos().into_iter().collect();
                let some = |rng: &mut StdRng| match ids.len() > 0 && rng.gen_bool(0.85) {
                    true => U256::from(*pick(rng, &ids)),
                    false => rnd_id(rng),
                };
                let (mut a, mut b) = (some(rng), some(rng));
                if let (Some(me), true) = (me, rng.gen_bool(0.8)) {
                    if rng.gen() {
                        a = U256::from(me);
                    } else {
                        b = U256::from(me);
                    }
                }
                let pi = PeerInfo {
                    id_init: a,
                    id_follow: b,
                    message: rnd_peer_msg(rng),
                };
                let got = s.msg(i, &WSSignalMessageFromNode::PeerSetup(pi.clone())).await?;
                let dst = me.and_then(|me| match (me == bytes(&a), me == bytes(&b)) {
                    (true, _) => Some(bytes(&b)),
                    (_, true) => Some(bytes(&a)),
                    _ => None,
                });
                let want = dst.and_then(|d| s.reg.get(&d)).map(|r| r.0);
                match (want, &got[..]) {
                    (None, []) => {
                        *stats.entry("not routed").or_default() += 1;
                    }
                    (Some(w), [Got::To(j, WSSignalMessageToNode::PeerSetup(p))]) if *j == w && *p == pi => {
                        *stats.entry("routed").or_default() += 1;
                    }
                    _ => {
                        return bad(
                            "N02",
                            "setup-not-routed-correctly",
                            json!({"registered sender": me.is_some(), "involved": dst.is_some(), "want": want, "got": format!("{got:?}")}),
                        )
                    }
                }
            }
            15 => {
                let ns: Vec<NodeStat> = (0..rng.gen_range(0..4))
                    .map(|k| NodeStat {
                        id: rnd_id(rng),
                        version: rnd_string(rng, 5),
                        ping_ms: rng.gen(),
                        ping_rx: k,
                    })
                    .collect();
                let got = s.msg(i, &WSSignalMessageFromNode::NodeStats(ns.clone())).await?;
                let ok = match &got[..] {
                    [Got::Stats(g)] => *g == ns,
                    [] => me.is_none(),
                    _ => false,
                };
                if !ok {
                    return bad("N01", "stats-not-passed-on", json!({"got": format!("{got:?}")}));
                }
            }
            16 => {
                // What isn't a message
                let valid = serde_json::to_string(&WSSignalMessageFromNode::PeerSetup(PeerInfo {
                    id_init: me.map(U256::from).unwrap_or(rnd_id(rng)),
                    id_follow: s.infos().iter().next().map(|b| U256::from(*b)).unwrap_or(rnd_id(rng)),
                    message: rnd_peer_msg(rng),
                }))
                .unwrap();
                let len = rng.gen_range(0..60);
                let junk = match rng.gen_range(0..6) {
                    0 => rnd_string(rng, len),
                    1 => valid[..valid.len() - 1].to_string(),
                    2 => "{\"Announce\":{}}".into(),
                    3 => "[".repeat(rng.gen_range(1..2000)),
                    4 => format!("{{\"NodeStats\":[{}]}}", "9".repeat(400)),
                    _ => "{\"Unknown\":[]}".into(),
                };
                let got = s.raw(i, junk.clone()).await?;
                if got.len() > 0 {
                    return bad("N01", "junk-answered", json!({"junk": junk, "got": format!("{got:?}")}));
                }
                *stats.entry("junk").or_default() += 1;
            }
            17 => {
                let got = s.send(SignalIn::WSServer(WSServerOut::Disconnection(i))).await?;
                s.forget(i);
                if got.iter().any(|g| matches!(g, Got::NewNode(_) | Got::To(_, WSSignalMessageToNode::PeerSetup(_)))) {
                    return bad("N03", "disconnection-answered", json!({"got": format!("{got:?}")}));
                }
                *stats.entry("disconnected").or_default() += 1;
            }
            _ => {
                s.send(SignalIn::Timer).await?;
                // A connection which had no message in this many full minutes is removed.
                let ttl = cfg.ttl_minutes;
                let mut gone = vec![];
                for (i, c) in s.conns.iter_mut().filter(|c| c.1.alive) {
                    c.idle += 1;
                    if c.idle > ttl {
                        gone.push(*i);
                    }
                }
                for i in gone {
                    *stats.entry("timed out").or_default() += 1;
                    s.forget(i);
                }
            }
        }
    }
    for (k, n) in &stats {
        mon.count(k, *n);
    }
    mon.count("oracle_checks", steps as u64);
    mon.nontrivial((format!("{cfg:?}").len(), steps, s.reg.len(), stats.values().cloned().collect::<Vec<_>>()));
    mon.sample(json!({"steps": steps, "ttl": cfg.ttl_minutes, "max_list_len": cfg.max_list_len, "observed": stats}));
    Ok(())
}

fn signal(mon: &mut Mon, prop: &str) {
    mon.rule("random histories of connections, announcements (honest and forged), setups, lists, timeouts and junk; distinct = (configuration, steps, registered, kinds observed)");
    for (ev, n) in [("registered", 500), ("refused", 300), ("routed", 300), ("not routed", 200), ("timed out", 100), ("lists", 200), ("replaced", 50), ("junk", 100), ("late", 100), ("relayed", 100)] {
        mon.require(ev, n);
    }
    let pool: Vec<NodeConfig> = (0..8).map(|_| NodeConfig::new()).collect();
    for i in 0..mon.n(250, 8000) {
        let Some(mut rng) = mon.begin(format!("signal-{i}")) else {
            continue;
        };
        let rt = rt_current();
        match drive(&rt, 30, signal_case(mon, &mut rng, &pool)) {
            Some(Ok(())) => {}
            Some(Err((s, v))) => {
                // Each property reports its own part.
                if s.starts_with(prop) {
                    mon.violation(&s, v)
                } else {
                    mon.count("ended_by_another_property", 1);
                }
            }
            None => mon.violation("stuck", json!({})),
        }
        if prop == "N01" {
            mon.check_panics("signal");
        } else {
            mon::take_panics();
        }
    }
}


/// Strings which look like something else in YAML or JSON.
fn tricky(rng: &mut StdRng) -> String {
    const T: &[&str] = &[
        "", "~", "null", "true", "no", "1", "1e5", "0x1f", "-1", ".5", ".inf", "=", "<<", "- a", "? x", ": y", "a: b", " lead",
        "trail ", "---", "...", "--- a", "a\n...\nb", "%YAML 1.2", "\n", "\n\n a", "#", "a #b", "&a", "*a", "!!str a", "|", ">", "'", "\"", "\\",
        "\\u0041", "[", "{}", "{\"a\":1}", "@", "`", "\t", "\r", "a\r\nb", "\u{85}", "\u{a0}", "\u{feff}", "\u{2028}x", "\u{0}", "\u{1b}", "\u{7f}", "\u{9f}",
        "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}", "Gossip", "DHTRouter",
    ];
    match rng.gen_range(0..5) {
        0 | 1 => pick(rng, T).to_string(),
        2 => {
            let n = rng.gen_range(0..80);
            rnd_string(rng, n)
        }
        3 => (0..rng.gen_range(1..40))
            .map(|_| char::from_u32(rng.gen_range(0..0x110000)).unwrap_or('x'))
            .collect(),
        _ => (0..rng.gen_range(1..5)).map(|_| pick(rng, T).to_string()).collect(),
    }
}

fn rnd_dir(rng: &mut StdRng) -> Direction {
    match rng.gen() {
        true => Direction::Incoming,
        false => Direction::Outgoing,
    }
}

fn drain<T>(rx: &mut UnboundedReceiver<T>) -> Vec<T> {
    let mut out = vec![];
    while let Ok(m) = rx.try_recv() {
        out.push(m);
    }
    out
}

struct Net {
    me: NodeConfig,
    net: BrokerNetwork,
    ws: BrokerWSClient,
    rtc: BrokerWebRTCConn,
    timer: Timer,
    conns: tokio::sync::watch::Receiver<Vec<NodeID>>,
    net_rx: UnboundedReceiver<NetworkOut>,
    ws_rx: UnboundedReceiver<WSClientIn>,
    rtc_rx: UnboundedReceiver<WebRTCConnIn>,
    /// incoming, outgoing
    state: BTreeMap<B, [bool; 2]>,
    ticks: usize,
}

struct NetGot {
    net: Vec<NetworkOut>,
    ws: Vec<WSSignalMessageFromNode>,
    rtc: Vec<WebRTCConnIn>,
}

fn di(d: &Direction) -> usize {
    match d {
        Direction::Incoming => 0,
        Direction::Outgoing => 1,
    }
}

impl Net {
    async fn new() -> Self {
        let me = NodeConfig::new();
        let mut ws: BrokerWSClient = Broker::new();
        let mut rtc: BrokerWebRTCConn = Broker::new();
        let mut timer = Timer::simul();
        let ws_rx = ws.get_tap_in().await.unwrap().0;
        let rtc_rx = rtc.get_tap_in().await.unwrap().0;
        let n = Network::start(me.clone(), ws.clone(), rtc.clone(), &mut timer).await.unwrap();
        let mut net = n.broker;
        let net_rx = net.get_tap_out().await.unwrap().0;
        Self {
            me,
            net,
            ws,
            rtc,
            timer,
            conns: n.connections,
            net_rx,
            ws_rx,
            rtc_rx,
            state: BTreeMap::new(),
            ticks: 0,
        }
    }

    async fn got(&mut self) -> Result<NetGot, Bad> {
        for _ in 0..2 {
            self.timer.broker.settle(vec![]).await.unwrap();
            self.ws.settle(vec![]).await.unwrap();
            self.rtc.settle(vec![]).await.unwrap();
            self.net.settle(vec![]).await.unwrap();
        }
        let mut ws = vec![];
        for m in drain(&mut self.ws_rx) {
            match m {
                WSClientIn::Message(s) => match serde_json::from_str(&s) {
                    Ok(m) => ws.push(m),
                    Err(e) => return bad("N04", "unreadable-for-the-server", json!({"msg": s, "error": e.to_string()})),
                },
                m => return bad("N04", "websocket-changed", json!({"msg": format!("{m:?}")})),
            }
        }
        Ok(NetGot {
            net: drain(&mut self.net_rx),
            ws,
            rtc: drain(&mut self.rtc_rx),
        })
    }

    fn up(&self, id: &NodeID) -> bool {
        self.state.get(&bytes(id)).map(|s| s[0] || s[1]).unwrap_or(false)
    }

    /// Changes the state, and returns what should be announced.
    fn set(&mut self, id: &NodeID, d: &Direction, to: bool) -> Vec<NetworkOut> {
        let before = self.up(id);
        self.state.entry(bytes(id)).or_default()[di(d)] = to;
        match (before, self.up(id)) {
            (false, true) => vec![NetworkOut::Connected(*id)],
            (true, false) => vec![NetworkOut::Disconnected(*id)],
            _ => vec![],
        }
    }
}

async fn net_case(mon: &mut Mon, rng: &mut StdRng) -> Result<(), Bad> {
    let mut n = Net::new().await;
    let me = n.me.info.get_id();
    let ids: Vec<NodeID> = (0..rng.gen_range(1..6)).map(|_| rnd_id(rng)).collect();
    let steps = rng.gen_range(20..200);
    let mut stats = BTreeMap::<&str, u64>::new();
    let mut ws_lists = 0;
    for step in 0..steps {
        let id = *pick(rng, &ids);
        let d = rnd_dir(rng);
        let was_up = n.up(&id);
        let mut want = NetGot { net: vec![], ws: vec![], rtc: vec![] };
        let mut texts: Vec<(NodeID, NetworkWrapper)> = vec![];
        let what: &str = match rng.gen_range(0..24) {
            0 => {
                if !was_up {
                    want.rtc.push(WebRTCConnIn::Connect(id));
                }
                n.net.emit_msg_in(NetworkIn::Connect(id)).unwrap();
                "connect"
            }
            1 => {
                if was_up {
                    n.state.insert(bytes(&id), [false, false]);
                    want.net.push(NetworkOut::Disconnected(id));
                    want.rtc.push(WebRTCConnIn::Message(id, NCInput::Disconnect));
                }
                n.net.emit_msg_in(NetworkIn::Disconnect(id)).unwrap();
                "disconnect"
            }
            2..=5 => {
                // One or more messages at once
                for k in 0..rng.gen_range(1..4) {
                    let nw = NetworkWrapper {
                        module: tricky(rng),
                        msg: tricky(rng),
                    };
                    if !was_up {
                        want.rtc.push(WebRTCConnIn::Connect(id));
                    }
                    want.rtc.push(WebRTCConnIn::Message(id, NCInput::Text(k.to_string())));
                    texts.push((id, nw.clone()));
                    n.net.emit_msg_in(NetworkIn::MessageToNode(id, nw)).unwrap();
                }
                "message sent"
            }
            6 => {
                let s: Vec<NodeStat> = (0..rng.gen_range(0..3))
                    .map(|k| NodeStat { id: rnd_id(rng), version: tricky(rng), ping_ms: rng.gen(), ping_rx: k })
                    .collect();
                want.ws.push(WSSignalMessageFromNode::NodeStats(s.clone()));
                n.net.emit_msg_in(NetworkIn::StatsToWS(s)).unwrap();
                "stats"
            }
            7 => {
                want.ws.push(WSSignalMessageFromNode::ListIDsRequest);
                n.net.emit_msg_in(NetworkIn::WSUpdateListRequest).unwrap();
                "list request"
            }
            8 => {
                let c = rnd_id(rng);
                let right = rng.gen_bool(0.8);
                let v = if right { SIGNAL_VERSION } else { SIGNAL_VERSION + rng.gen_range(1..5) };
                n.ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::Challenge(v, c)).unwrap())).unwrap();
                let mut got = n.got().await?;
                if !right {
                    if got.ws.len() > 0 {
                        return bad("N04", "announced-to-server-of-wrong-version", json!({"got": format!("{:?}", got.ws)}));
                    }
                    continue;
                }
                match got.ws.first() {
                    Some(WSSignalMessageFromNode::Announce(a))
                        if a.challenge == c && a.node_info == n.me.info && n.me.info.verify(&c.to_bytes(), &a.signature) && a.version == SIGNAL_VERSION => {}
                    o => return bad("N04", "challenge-not-answered-correctly", json!({"got": format!("{o:?}")})),
                }
                got.ws.remove(0);
                // A list is asked for, so that the node knows the others
                if got.ws != vec![WSSignalMessageFromNode::ListIDsRequest] || got.net.len() + got.rtc.len() > 0 {
                    return bad("N04", "no-list-after-announcement", json!({"got": format!("{:?}", got.ws)}));
                }
                *stats.entry("challenge").or_default() += 1;
                continue;
            }
            9 => {
                let l: Vec<NodeInfo> = (0..rng.gen_range(0..4)).map(|_| NodeConfig::new().info).collect();
                want.net.push(NetworkOut::NodeListFromWS(l.clone()));
                n.ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::ListIDsReply(l)).unwrap())).unwrap();
                "list"
            }
            10 => {
                let (m, o) = match rng.gen() {
                    true => {
                        let c = FledgerConfig { system_realm: rng.gen::<bool>().then(|| RealmID::from(bytes(&rnd_id(rng)))) };
                        (WSSignalMessageToNode::SystemConfig(c.clone()), NetworkOut::SystemConfig(c))
                    }
                    false => {
                        let e = tricky(rng);
                        (WSSignalMessageToNode::Error(e.clone()), NetworkOut::Error(e))
                    }
                };
                want.net.push(o);
                n.ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&m).unwrap())).unwrap();
                "config"
            }
            11..=13 => {
                // Setup from the other node, over the server
                let m = rnd_peer_msg(rng);
                let uninvolved = rng.gen_bool(0.2);
                let (a, b) = match (uninvolved, &d) {
                    (true, _) => (rnd_id(rng), id),
                    (_, Direction::Outgoing) => (me, id),
                    (_, Direction::Incoming) => (id, me),
                };
                if !uninvolved {
                    // Candidates may arrive any time, everything else starts over.
                    if !matches!(m, PeerMessage::IceCandidate(_)) {
                        want.net = n.set(&id, &d, false);
                    } else if n.state.get(&bytes(&id)).map(|s| s[di(&d)]).unwrap_or(false) {
                        *stats.entry("late candidate").or_default() += 1;
                    }
                    want.rtc.push(WebRTCConnIn::Message(id, NCInput::Setup(d.clone(), m.clone())));
                }
                let pi = PeerInfo { id_init: a, id_follow: b, message: m };
                n.ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::PeerSetup(pi)).unwrap())).unwrap();
                "setup received"
            }
            14 => {
                let m = rnd_peer_msg(rng);
                let (a, b) = match d {
                    Direction::Outgoing => (me, id),
                    Direction::Incoming => (id, me),
                };
                want.ws.push(WSSignalMessageFromNode::PeerSetup(PeerInfo { id_init: a, id_follow: b, message: m.clone() }));
                n.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::Setup(d.clone(), m))).unwrap();
                "setup sent"
            }
            15..=17 => {
                want.net = n.set(&id, &d, true);
                n.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::Connected(d.clone()))).unwrap();
                "connection up"
            }
            18 | 19 => {
                want.net = n.set(&id, &d, false);
                n.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::Disconnected(d.clone()))).unwrap();
                "connection down"
            }
            20 => {
                n.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::State(d.clone(), ConnectionStateMap { rx_bytes: step, ..Default::default() }))).unwrap();
                let got = n.got().await?;
                match &got.net[..] {
                    [NetworkOut::ConnectionState(s)] if s.id == id && s.dir == d && s.s.rx_bytes == step => {}
                    _ => return bad("N04", "state-not-passed-on", json!({"got": format!("{:?}", got.net)})),
                }
                continue;
            }
            21 => {
                // Junk over the server and from other nodes
                let sig = serde_yaml::to_string(&NetworkWrapper {
                    module: "Network".into(),
                    msg: pick(rng, &["SignalIn: Connected", "SignalIn: Disconnect", "SignalOut: Connect", "SignalOut:\n  Message: a", "SignalIn:\n  Error: a", "---\nSignalOut: Disconnect"]).to_string(),
                })
                .unwrap();
                let j = tricky(rng);
                let junk = match rng.gen_range(0..5) {
                    0 => sig,
                    1 => format!("module: {j}"),
                    2 => "[".repeat(rng.gen_range(1..100)),
                    3 => "module: [a]\nmsg: {}".into(),
                    _ => j,
                };
                if rng.gen() {
                    n.rtc.emit_msg_out(WebRTCConnOut::Message(id, NCOutput::Text(junk.clone()))).unwrap();
                } else {
                    let m = match rng.gen_range(0..4) {
                        0 => WSClientOut::Message(junk.clone()),
                        1 => WSClientOut::Error(junk.clone()),
                        2 => WSClientOut::Disconnect,
                        _ => WSClientOut::Connected,
                    };
                    n.ws.emit_msg_out(m).unwrap();
                }
                let got = n.got().await?;
                if got.rtc.len() + got.ws.len() > 0 || got.net.iter().any(|m| !matches!(m, NetworkOut::MessageFromNode(_, _))) {
                    return bad("N04", "junk-answered", json!({"junk": junk, "net": format!("{:?}", got.net), "rtc": format!("{:?}", got.rtc)}));
                }
                *stats.entry("junk").or_default() += 1;
                "junk"
            }
            _ => {
                for _ in 0..rng.gen_range(1..40) {
                    n.timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
                    n.ticks += 1;
                    if n.ticks % 60 == 0 {
                        ws_lists += 1;
                        want.ws.push(WSSignalMessageFromNode::ListIDsRequest);
                    }
                }
                "ticks"
            }
        };
        *stats.entry(what).or_default() += 1;
        if what != "junk" {
            let got = n.got().await?;
            // Texts: compared after being read by the other side
            let mut got_rtc = vec![];
            let mut sent = vec![];
            for m in got.rtc {
                match m {
                    WebRTCConnIn::Message(i, NCInput::Text(s)) => {
                        got_rtc.push(WebRTCConnIn::Message(i, NCInput::Text(sent.len().to_string())));
                        sent.push((i, s));
                    }
                    m => got_rtc.push(m),
                }
            }
            if got.net != want.net {
                return bad("N04", "wrong-announcement-to-user", json!({"op": what, "dir": d.to_string(), "got": format!("{:?}", got.net), "want": format!("{:?}", want.net)}));
            }
            if got.ws != want.ws {
                return bad("N04", "wrong-message-to-server", json!({"op": what, "got": format!("{:?}", got.ws), "want": format!("{:?}", want.ws)}));
            }
            if got_rtc != want.rtc {
                return bad("N04", "wrong-message-to-webrtc", json!({"op": what, "was connected": was_up, "got": format!("{got_rtc:?}"), "want": format!("{:?}", want.rtc)}));
            }
            // The other side gets exactly what was sent.
            for ((i, s), (_, nw)) in sent.into_iter().zip(texts) {
                n.rtc.emit_msg_out(WebRTCConnOut::Message(i, NCOutput::Text(s.clone()))).unwrap();
                let got = n.got().await?;
                *stats.entry("message received").or_default() += 1;
                match &got.net[..] {
                    [NetworkOut::MessageFromNode(j, w)] if *j == i && *w == nw => {}
                    _ => return bad("N04", "message-altered", json!({"sent": format!("{nw:?}"), "text": s, "got": format!("{:?}", got.net)})),
                }
            }
        }
        let have: Vec<B> = n.conns.borrow().iter().map(bytes).collect();
        let set: BTreeSet<B> = have.iter().cloned().collect();
        let want: BTreeSet<B> = n.state.iter().filter(|s| s.1[0] || s.1[1]).map(|s| *s.0).collect();
        if set != want || have.len() != set.len() {
            return bad("N04", "wrong-list-of-connections", json!({"after": what, "have": have.len(), "want": want.len()}));
        }
    }
    for (k, c) in &stats {
        mon.count(k, *c);
    }
    mon.count("periodic lists", ws_lists);
    mon.count("oracle_checks", steps);
    mon.nontrivial((ids.len(), steps, stats.values().cloned().collect::<Vec<_>>()));
    mon.sample(json!({"steps": steps, "nodes": ids.len(), "observed": stats}));
    Ok(())
}

fn n04(mon: &mut Mon) {
    mon.rule("random histories of user requests, messages from the signalling server, events of the WebRTC connections in both directions, texts, junk and ticks; distinct = (nodes, steps, kinds observed)");
    for (ev, n) in [("message received", 500), ("connection up", 500), ("connection down", 300), ("disconnect", 100), ("late candidate", 50), ("setup received", 500), ("setup sent", 100), ("challenge", 100), ("junk", 100), ("periodic lists", 100)] {
        mon.require(ev, n);
    }
    for i in 0..mon.n(200, 6000) {
        let Some(mut rng) = mon.begin(format!("network-{i}")) else {
            continue;
        };
        let rt = rt_current();
        match drive(&rt, 30, net_case(mon, &mut rng)) {
            Some(Ok(())) => {}
            Some(Err((s, v))) => mon.violation(&s[4..], v),
            None => mon.violation("stuck", json!({})),
        }
        mon.check_panics("network");
    }
}

/// What a module on top of the router knows from its messages.
#[derive(Default)]
struct View {
    available: Vec<NodeInfo>,
    ids: BTreeSet<B>,
    infos: BTreeSet<B>,
    up: BTreeSet<B>,
}

async fn router_net_case(mon: &mut Mon, rng: &mut StdRng) -> Result<(), Bad> {
    let mut net: BrokerNetwork = Broker::new();
    let mut net_rx = net.get_tap_in().await.unwrap().0;
    let mut router: BrokerRouter = RouterNetwork::start(net.clone()).await.unwrap();
    let mut rx = router.get_tap_out().await.unwrap().0;
    let pool: Vec<NodeInfo> = (0..rng.gen_range(1..7)).map(|_| NodeConfig::new().info).collect();
    let mut avail: Vec<NodeInfo> = vec![];
    let mut up = BTreeSet::<B>::new();
    let mut v = View::default();
    let mut stats = BTreeMap::<&str, u64>::new();
    let steps = rng.gen_range(10..100);
    for step in 0..steps {
        // Several messages can be handled at once.
        let mut want_msgs = vec![];
        let mut want_events = vec![];
        let mut want_confs = vec![];
        let mut want_out = vec![];
        for k in 0..rng.gen_range(1..5) {
            let id = match rng.gen_bool(0.95) {
                true => pick(rng, &pool).get_id(),
                false => rnd_id(rng),
            };
            let nw = NetworkWrapper { module: format!("m{step}"), msg: format!("{k}") };
            match rng.gen_range(0..12) {
                0..=2 => {
                    if up.insert(bytes(&id)) {
                        want_events.push((true, bytes(&id)));
                    }
                    net.emit_msg_out(NetworkOut::Connected(id)).unwrap();
                    *stats.entry("connected").or_default() += 1;
                }
                3 | 4 => {
                    if up.remove(&bytes(&id)) {
                        want_events.push((false, bytes(&id)));
                    }
                    net.emit_msg_out(NetworkOut::Disconnected(id)).unwrap();
                    *stats.entry("disconnected").or_default() += 1;
                }
                5 | 6 => {
                    avail = pool.iter().filter(|_| rng.gen_bool(0.6)).cloned().collect();
                    net.emit_msg_out(NetworkOut::NodeListFromWS(avail.clone())).unwrap();
                    *stats.entry("lists").or_default() += 1;
                }
                7 | 8 => {
                    if up.insert(bytes(&id)) {
                        want_events.push((true, bytes(&id)));
                        *stats.entry("message from unconnected").or_default() += 1;
                    }
                    want_msgs.push((bytes(&id), nw.clone()));
                    net.emit_msg_out(NetworkOut::MessageFromNode(id, nw)).unwrap();
                    *stats.entry("messages in").or_default() += 1;
                }
                9 | 10 => {
                    want_out.push(NetworkIn::MessageToNode(id, nw.clone()));
                    router.emit_msg_in(RouterIn::NetworkWrapperToNetwork(id, nw)).unwrap();
                    *stats.entry("messages out").or_default() += 1;
                }
                _ => {
                    let c = FledgerConfig { system_realm: rng.gen::<bool>().then(|| RealmID::from(bytes(&rnd_id(rng)))) };
                    want_confs.push(c.clone());
                    net.emit_msg_out(NetworkOut::SystemConfig(c)).unwrap();
                    net.emit_msg_out(NetworkOut::Error("nothing".into())).unwrap();
                }
            }
        }
        for _ in 0..2 {
            net.settle(vec![]).await.unwrap();
            router.settle(vec![]).await.unwrap();
        }
        let (mut msgs, mut events, mut confs) = (vec![], vec![], vec![]);
        for m in drain(&mut rx) {
            match m {
                RouterOut::NodeInfoAvailable(l) => v.available = l,
                RouterOut::NodeIDsConnected(l) => {
                    v.ids = l.0.iter().map(bytes).collect();
                    if v.ids.len() != l.0.len() {
                        return bad("N05", "connected-twice", json!({"ids": l.0.len()}));
                    }
                }
                RouterOut::NodeInfosConnected(l) => v.infos = l.iter().map(|i| bytes(&i.get_id())).collect(),
                RouterOut::Connected(i) => {
                    if !v.ids.contains(&bytes(&i)) || !v.up.insert(bytes(&i)) {
                        return bad("N05", "connected-before-being-listed", json!({"listed": v.ids.contains(&bytes(&i))}));
                    }
                    events.push((true, bytes(&i)));
                }
                RouterOut::Disconnected(i) => {
                    if v.ids.contains(&bytes(&i)) || !v.up.remove(&bytes(&i)) {
                        return bad("N05", "disconnected-while-listed", json!({"listed": v.ids.contains(&bytes(&i))}));
                    }
                    events.push((false, bytes(&i)));
                }
                RouterOut::NetworkWrapperFromNetwork(i, w) => {
                    if !v.up.contains(&bytes(&i)) {
                        return bad("N05", "message-from-unconnected-node", json!({}));
                    }
                    msgs.push((bytes(&i), w));
                }
                RouterOut::SystemConfig(c) => confs.push(c),
            }
        }
        if msgs != want_msgs {
            return bad("N05", "messages-not-delivered-exactly", json!({"got": msgs.len(), "want": want_msgs.len()}));
        }
        if events != want_events {
            return bad("N05", "wrong-events", json!({"got": format!("{events:?}"), "want": format!("{want_events:?}")}));
        }
        if confs != want_confs {
            return bad("N05", "configuration-lost", json!({}));
        }
        let out = drain(&mut net_rx);
        if out != want_out {
            return bad("N05", "message-to-network-altered", json!({"got": format!("{out:?}"), "want": format!("{want_out:?}")}));
        }
        let infos: BTreeSet<B> = avail.iter().map(|i| bytes(&i.get_id())).filter(|i| up.contains(i)).collect();
        if v.ids != up || v.infos != infos || v.available != avail {
            return bad("N05", "wrong-lists", json!({"ids": v.ids.len(), "connected": up.len(), "infos": v.infos.len(), "want infos": infos.len(), "available": v.available.len(), "want available": avail.len()}));
        }
    }
    for (k, c) in &stats {
        mon.count(k, *c);
    }
    mon.count("oracle_checks", steps);
    mon.nontrivial((pool.len(), steps, up.len(), stats.values().cloned().collect::<Vec<_>>()));
    mon.sample(json!({"steps": steps, "nodes": pool.len(), "observed": stats}));
    Ok(())
}

async fn router_rnd_case(mon: &mut Mon, rng: &mut StdRng) -> Result<(), Bad> {
    let mut rnd: Broker<RandomIn, RandomOut> = Broker::new();
    let mut rnd_rx = rnd.get_tap_in().await.unwrap().0;
    let mut router = RouterRandom::start(rnd.clone()).await.unwrap();
    let mut rx = router.get_tap_out().await.unwrap().0;
    let (mut want_out, mut want_in) = (vec![], vec![]);
    let steps = rng.gen_range(1..60);
    for _ in 0..steps {
        let id = rnd_id(rng);
        let nw = NetworkWrapper { module: tricky(rng), msg: tricky(rng) };
        match rng.gen_range(0..4) {
            0 => {
                let ids = (0..rng.gen_range(0..4)).map(|_| rnd_id(rng)).collect::<Vec<_>>();
                rnd.emit_msg_out(RandomOut::NodeIDsConnected(ids.clone().into())).unwrap();
                want_out.push(RouterOut::NodeIDsConnected(ids.into()));
            }
            1 => {
                let infos = (0..rng.gen_range(0..3)).map(|_| NodeConfig::new().info).collect::<Vec<_>>();
                rnd.emit_msg_out(RandomOut::NodeInfosConnected(infos.clone())).unwrap();
                want_out.push(RouterOut::NodeInfosConnected(infos));
            }
            2 => {
                rnd.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(id, nw.clone())).unwrap();
                want_out.push(RouterOut::NetworkWrapperFromNetwork(id, nw));
            }
            _ => {
                router.emit_msg_in(RouterIn::NetworkWrapperToNetwork(id, nw.clone())).unwrap();
                want_in.push(RandomIn::NetworkWrapperToNetwork(id, nw));
            }
        }
        if rng.gen_bool(0.3) {
            rnd.settle(vec![]).await.unwrap();
        }
    }
    for _ in 0..2 {
        rnd.settle(vec![]).await.unwrap();
        router.settle(vec![]).await.unwrap();
    }
    let (got_out, got_in) = (drain(&mut rx), drain(&mut rnd_rx));
    if got_out != want_out || got_in != want_in {
        return bad("N05", "not-passed-on-exactly", json!({"out": got_out.len(), "want out": want_out.len(), "in": got_in.len(), "want in": want_in.len()}));
    }
    mon.count("passed on", (got_in.len() + got_out.len()) as u64);
    mon.count("oracle_checks", 2);
    mon.nontrivial(("random", steps, got_in.len()));
    Ok(())
}

fn n05(mon: &mut Mon) {
    mon.rule("random histories of network events handled one by one or together, and of messages in both directions, on both routers; distinct = (nodes, steps, connected, kinds observed)");
    for (ev, n) in [("connected", 500), ("disconnected", 300), ("lists", 300), ("messages in", 300), ("messages out", 300), ("message from unconnected", 100), ("passed on", 500)] {
        mon.require(ev, n);
    }
    for i in 0..mon.n(300, 10000) {
        let Some(mut rng) = mon.begin(format!("router-{i}")) else {
            continue;
        };
        let rt = rt_current();
        let r = match i % 4 {
            3 => drive(&rt, 30, router_rnd_case(mon, &mut rng)),
            _ => drive(&rt, 30, router_net_case(mon, &mut rng)),
        };
        match r {
            Some(Ok(())) => {}
            Some(Err((s, v))) => mon.violation(&s[4..], v),
            None => mon.violation("stuck", json!({})),
        }
        mon.check_panics("router");
    }
}

fn main() {
    main_with(|mon, id| match id {
        "N01" | "N02" | "N03" => signal(mon, id),
        "N04" => n04(mon),
        "N05" => n05(mon),
        _ => panic!("unknown property {id}"),
    });
}
