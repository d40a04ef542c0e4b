//! F02: identity and keys of a node over restarts and failures; E01: whole nodes working together.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::{Arc, Mutex},
};

use bytes::Bytes;
use flarch::{
    tasks::now,
    broker::Broker,
    data_storage::{DataStorage, DataStorageFile, StorageError},
    nodeids::NodeID,
};
use flcrypto::{
    access::Condition,
    signer::{SignerTrait, VerifierTrait},
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_storage::core::RealmConfig,
    flo::{flo::FloWrapper, realm::FloRealm, storage::CryptoStorage},
    gossip_events::core::Category,
    network::broker::{BrokerNetwork, NetworkIn, NetworkOut},
    nodeconfig::{NodeConfig, NodeInfo},
    timer::{Timer, TimerMessage},
    Modules,
};
use flnode::node::Node;
use mon::{
    drive, main_with, rt_paused,
    util::{pick, rnd_bytes, rnd_string, Scratch},
    Mon,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Value};
use tokio::task::JoinHandle;

type Bad = (String, Value);
type B = [u8; 32];

fn bytes(id: &NodeID) -> B {
    id.to_bytes().try_into().unwrap()
}

// ---------------------------------------------------------------- a storage with failures
#[derive(Default)]
struct Disk {
    kv: HashMap<String, String>,
    /// What the storage held after each write.
    log: Vec<HashMap<String, String>>,
    fail_get: bool,
    fail_set: bool,
    failed: u64,
}

#[derive(Clone, Default)]
struct Store(Arc<Mutex<Disk>>);

impl Store {
    fn of(kv: HashMap<String, String>) -> Self {
        let s = Self::default();
        s.0.lock().unwrap().kv = kv;
        s
    }
    fn fail(&self, get: bool, set: bool) {
        let mut d = self.0.lock().unwrap();
        d.fail_get = get;
        d.fail_set = set;
    }
}

impl DataStorage for Store {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        let mut d = self.0.lock().unwrap();
        if d.fail_get {
            d.failed += 1;
            return Err(StorageError::Underlying("input/output error".into()));
        }
        Ok(d.kv.get(key).cloned().unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        let mut d = self.0.lock().unwrap();
        if d.fail_set {
            d.failed += 1;
            return Err(StorageError::Underlying("no space left".into()));
        }
        d.kv.insert(key.into(), value.into());
        let kv = d.kv.clone();
        d.log.push(kv);
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.0.lock().unwrap().kv.remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

// ---------------------------------------------------------------- F02
enum Any {
    Mem(Store),
    File(String, String),
}

impl Any {
    fn open(&self) -> Box<dyn DataStorage + Send> {
        match self {
            Any::Mem(s) => s.clone_box(),
            Any::File(dir, base) => Box::new(DataStorageFile::new(dir.clone(), base.clone())),
        }
    }
    fn fail(&self, get: bool, set: bool) {
        if let Any::Mem(s) = self {
            s.fail(get, set);
        }
    }
}

fn f02_case(rng: &mut StdRng, dir: &str, ev: &mut BTreeMap<&'static str, u64>) -> Result<(), Bad> {
    let st = match rng.gen_range(0..3) {
        0 => {
            let base = ["", "node", "a"][rng.gen_range(0..3)];
            Any::File(dir.into(), base.into())
        }
        _ => Any::Mem(Store::default()),
    };
    let mem = matches!(st, Any::Mem(_));
    // What has to come back: the identity with its keys and name, and the signers.
    let mut ident: Option<(NodeID, Vec<u8>, String, Modules)> = None;
    let mut signers: Vec<String> = vec![];
    let signer_ids = |c: &CryptoStorage| c.signers.iter().map(|s| format!("{:?}", s.get_id())).collect::<Vec<_>>();
    for _ in 0..rng.gen_range(5..25) {
        let (bad_get, bad_set) = match mem {
            true => (rng.gen_range(0..4) == 0, rng.gen_range(0..6) == 0),
            false => (false, false),
        };
        let mut e = |n: &'static str| *ev.entry(n).or_default() += 1;
        match rng.gen_range(0..6) {
            0..=2 => {
                // A start of the node
                st.fail(bad_get, bad_set);
                let got = Node::get_config(st.open());
                st.fail(false, false);
                match got {
                    Ok(c) => {
                        let has = (c.info.get_id(), c.keypair.clone(), c.info.name.clone(), c.info.modules);
                        if let Some(w) = &ident {
                            let same = has.0 == w.0 && has.1 == w.1;
                            if !same {
                                return Err(("identity-replaced".into(), json!({"get failed": bad_get, "set failed": bad_set})));
                            }
                            if has.2 != w.2 || (has.3 - Modules::WEBPROXY_REQUESTS) != (w.3 - Modules::WEBPROXY_REQUESTS) {
                                return Err(("configuration-changed".into(), json!({"name": has.2, "want": w.2})));
                            }
                            e("loaded");
                        } else if bad_get || bad_set {
                            return Err(("started-with-identity-which-is-not-stored".into(), json!({"get failed": bad_get, "set failed": bad_set})));
                        } else {
                            e("created");
                        }
                        if !has.3.contains(Modules::WEBPROXY_REQUESTS) {
                            return Err(("cannot-serve-requests".into(), json!({})));
                        }
                        ident = Some(has);
                    }
                    Err(_) if bad_get || bad_set => e("refused"),
                    Err(x) => return Err(("configuration-not-loaded".into(), json!({"error": x.to_string()}))),
                }
                if let (true, Some(w)) = (bad_get || bad_set, &ident) {
                    // Whatever failed, the identity is still there.
                    match Node::get_config(st.open()) {
                        Ok(c) if c.info.get_id() == w.0 && c.keypair == w.1 => e("kept"),
                        Ok(_) => return Err(("identity-replaced".into(), json!({"after": "failure", "get failed": bad_get, "set failed": bad_set}))),
                        Err(x) => return Err(("configuration-not-loaded".into(), json!({"after": "failure", "error": x.to_string()}))),
                    }
                }
            }
            3 => {
                // The user changes the name
                let Some(w) = &mut ident else { continue };
                let Ok(mut c) = Node::get_config(st.open()) else {
                    return Err(("configuration-not-loaded".into(), json!({"before": "change"})));
                };
                let len = rng.gen_range(0..30);
                c.info.name = rnd_string(rng, len);
                if rng.gen() {
                    c.info.modules.toggle(*pick(rng, &[Modules::WEBPROXY, Modules::GOSSIP, Modules::STAT]));
                }
                let text = c.encode();
                if NodeConfig::decode(&text).info.name != c.info.name {
                    // F01
                    continue;
                }
                st.fail(false, bad_set);
                let r = Node::set_config(st.open(), &text);
                st.fail(false, false);
                if r.is_ok() && bad_set {
                    return Err(("failure-not-reported".into(), json!({})));
                }
                if r.is_ok() {
                    w.2 = c.info.name;
                    w.3 = c.info.modules;
                    e("renamed");
                } else if !bad_set {
                    return Err(("change-refused".into(), json!({})));
                }
            }
            _ => {
                st.fail(bad_get, false);
                let mut c = CryptoStorage::new(st.open());
                st.fail(false, bad_set);
                if !bad_get && signer_ids(&c) != signers {
                    return Err(("signers-lost".into(), json!({"have": c.signers.len(), "want": signers.len()})));
                }
                let first = (!c.signers.is_empty()).then(|| c.get_signer().get_id());
                for _ in 0..rng.gen_range(1..3) {
                    let s = if rng.gen_range(0..3) == 0 { c.add_signer() } else { c.get_signer() };
                    let s2 = c.get_signer();
                    // Pages of the user are signed with this one.
                    if first.as_ref().map(|f| *f != s2.get_id()).unwrap_or(false) {
                        return Err(("other-signer-used".into(), json!({"signers": c.signers.len()})));
                    }
                    if s.get_id() != s2.get_id() && !c.signers.iter().any(|x| x.get_id() == s.get_id()) {
                        return Err(("signer-not-kept".into(), json!({})));
                    }
                    let m: Bytes = rnd_bytes(rng, 10).into();
                    if s.sign(&m).and_then(|sig| s2.verifier().verify(&m, &sig)).is_err() && s.get_id() == s2.get_id() {
                        return Err(("signer-does-not-sign".into(), json!({})));
                    }
                }
                st.fail(false, false);
                // What is stored now
                let now = signer_ids(&CryptoStorage::new(st.open()));
                if now.len() < signers.len() || now[..signers.len()] != signers[..] {
                    return Err(("signers-lost".into(), json!({"have": now.len(), "want": signers.len(), "get failed": bad_get, "set failed": bad_set})));
                }
                if !bad_get && !bad_set {
                    if now != signer_ids(&c) {
                        return Err(("signers-not-stored".into(), json!({"have": now.len(), "want": c.signers.len()})));
                    }
                    e("signers");
                } else {
                    e("signers-with-failure");
                }
                signers = now;
            }
        }
    }
    Ok(())
}

fn f02(mon: &mut Mon) {
    mon.rule("random histories of starts, changes of the configuration, and uses of the keys over memory and file storages, whose reads and writes fail now and then; distinct = kinds observed");
    for (e, n) in [("created", 100), ("loaded", 300), ("refused", 50), ("kept", 50), ("renamed", 50), ("signers", 200), ("signers-with-failure", 50)] {
        mon.require(e, n);
    }
    for i in 0..mon.n(300, 6000) {
        let Some(mut rng) = mon.begin(format!("identity{i}")) else { continue };
        let dir = Scratch::new();
        let mut ev = BTreeMap::new();
        let r = f02_case(&mut rng, &dir.path(), &mut ev);
        for (e, n) in &ev {
            mon.count(e, *n);
        }
        mon.nontrivial(format!("{ev:?}"));
        mon.sample(json!(ev));
        if let Err((sig, v)) = r {
            mon.violation(&sig, v);
        }
        mon.check_panics("identity");
        if mon.failed() {
            return;
        }
    }
}

// ---------------------------------------------------------------- E01
struct HubNode {
    net: BrokerNetwork,
    info: NodeInfo,
    group: u8,
}

/// The network between the nodes.
#[derive(Default)]
struct Hub {
    nodes: BTreeMap<B, HubNode>,
    conns: BTreeSet<(B, B)>,
    loss: f64,
    rng: Option<StdRng>,
    sent: u64,
    lost: u64,
}

fn pair(a: B, b: B) -> (B, B) {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}

impl Hub {
    fn emit(&mut self, to: &B, m: NetworkOut) {
        if std::env::var("MON_DEBUG").is_ok() && !matches!(m, NetworkOut::MessageFromNode(_, _)) {
            eprintln!("   {:02x} <- {}", to[0], format!("{m:?}").chars().take(100).collect::<String>());
        }
        if let Some(n) = self.nodes.get_mut(to) {
            n.net.emit_msg_out(m).unwrap();
        }
    }

    fn list(&self) -> Vec<NodeInfo> {
        self.nodes.values().map(|n| n.info.clone()).collect()
    }

    fn connect(&mut self, a: B, b: B) -> bool {
        if self.conns.contains(&pair(a, b)) {
            return true;
        }
        let (Some(x), Some(y)) = (self.nodes.get(&a), self.nodes.get(&b)) else {
            return false;
        };
        if a == b || x.group != y.group {
            return false;
        }
        self.conns.insert(pair(a, b));
        self.emit(&a, NetworkOut::Connected(b.into()));
        self.emit(&b, NetworkOut::Connected(a.into()));
        true
    }

    fn disconnect(&mut self, a: B, b: B) {
        if self.conns.remove(&pair(a, b)) {
            self.emit(&a, NetworkOut::Disconnected(b.into()));
            self.emit(&b, NetworkOut::Disconnected(a.into()));
        }
    }

    fn drop_node(&mut self, a: B) {
        for (x, y) in self.conns.clone() {
            if x == a || y == a {
                self.disconnect(x, y);
            }
        }
        self.nodes.remove(&a);
    }

    fn msg(&mut self, from: B, m: NetworkIn) {
        if !self.nodes.contains_key(&from) {
            return;
        }
        match m {
            NetworkIn::MessageToNode(to, w) => {
                self.sent += 1;
                let to = bytes(&to);
                if self.connect(from, to) {
                    let loss = self.loss;
                    if loss > 0. && self.rng.as_mut().unwrap().gen_bool(loss) {
                        self.lost += 1;
                    } else {
                        self.emit(&to, NetworkOut::MessageFromNode(from.into(), w));
                    }
                }
            }
            NetworkIn::Connect(to) => {
                self.connect(from, bytes(&to));
            }
            NetworkIn::Disconnect(to) => self.disconnect(from, bytes(&to)),
            NetworkIn::WSUpdateListRequest => {
                let l = self.list();
                self.emit(&from, NetworkOut::NodeListFromWS(l));
            }
            NetworkIn::StatsToWS(_) => {}
        }
    }

    fn peers(&self, a: &B) -> BTreeSet<B> {
        self.conns
            .iter()
            .filter_map(|(x, y)| if x == a { Some(*y) } else if y == a { Some(*x) } else { None })
            .collect()
    }
}

struct Running {
    node: Node,
    timer: Timer,
    task: JoinHandle<()>,
}

struct Member {
    config: NodeConfig,
    store: Store,
    run: Option<Running>,
    /// Position in the storage's log when everything was quiet.
    quiet: usize,
}

struct World {
    hub: Arc<Mutex<Hub>>,
    members: Vec<Member>,
    /// Text -> who wrote it; and whether a crash may have lost it
    texts: BTreeMap<String, (B, bool)>,
    looks: u64,
    /// Between which times a text was written.
    times: BTreeMap<String, (i64, i64)>,
    flos: Vec<(FloWrapper<Bytes>, bool)>,
    /// Texts and pages written since everything was quiet, with the node.
    recent: Vec<(usize, Option<String>, usize)>,
    ev: BTreeMap<&'static str, u64>,
}

const MAX_TEXTS: usize = 40;

impl World {
    fn ev(&mut self, e: &'static str) {
        *self.ev.entry(e).or_default() += 1;
    }

    async fn start(&mut self, i: usize) {
        let m = &mut self.members[i];
        let mut net: BrokerNetwork = Broker::new();
        let mut tap = net.get_tap_in().await.unwrap().0;
        let timer = Timer::simul();
        let id = bytes(&m.config.info.get_id());
        let hub = self.hub.clone();
        let task = tokio::spawn(async move {
            while let Some(msg) = tap.recv().await {
                hub.lock().unwrap().msg(id, msg);
            }
        });
        let config = Node::get_config(m.store.clone_box()).unwrap();
        let node = Node::start(m.store.clone_box(), config, net.clone(), timer.broker.clone()).await.unwrap();
        m.run = Some(Running { node, timer, task });
        let info = m.config.info.clone();
        let mut hub = self.hub.lock().unwrap();
        hub.nodes.insert(id, HubNode { net, info, group: 0 });
        let list = hub.list();
        for id in hub.nodes.keys().cloned().collect::<Vec<_>>() {
            hub.emit(&id, NetworkOut::NodeListFromWS(list.clone()));
        }
    }

    fn stop(&mut self, i: usize) {
        let id = bytes(&self.members[i].config.info.get_id());
        self.hub.lock().unwrap().drop_node(id);
        if let Some(r) = self.members[i].run.take() {
            r.task.abort();
        }
        let mut hub = self.hub.lock().unwrap();
        let list = hub.list();
        for id in hub.nodes.keys().cloned().collect::<Vec<_>>() {
            hub.emit(&id, NetworkOut::NodeListFromWS(list.clone()));
        }
    }

    /// With the paused clock, this returns only once nothing is left to do.
    async fn quiet(&mut self) {
        for _ in 0..3 {
            tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        }
        self.recent.clear();
        for m in self.members.iter_mut() {
            m.quiet = m.store.0.lock().unwrap().log.len();
        }
    }

    async fn minute(&mut self, seconds: usize) {
        for s in 0..=seconds {
            for m in self.members.iter_mut() {
                if let Some(r) = m.run.as_mut() {
                    let t = if s == seconds { TimerMessage::Minute } else { TimerMessage::Second };
                    r.timer.broker.emit_msg_out(t).unwrap();
                }
            }
            self.quiet().await;
        }
        let mut hub = self.hub.lock().unwrap();
        let list = hub.list();
        for id in hub.nodes.keys().cloned().collect::<Vec<_>>() {
            hub.emit(&id, NetworkOut::NodeListFromWS(list.clone()));
        }
    }

    fn up(&self) -> Vec<usize> {
        (0..self.members.len()).filter(|i| self.members[*i].run.is_some()).collect()
    }

    fn id(&self, i: usize) -> B {
        bytes(&self.members[i].config.info.get_id())
    }

    fn chat(&self, i: usize) -> BTreeMap<String, B> {
        let n = &self.members[i].run.as_ref().unwrap().node;
        n.gossip.as_ref().unwrap().chat_events().iter().map(|e| (e.msg.clone(), bytes(&e.src))).collect()
    }

    /// What must be true whenever nothing moves; what nodes show is updated every second.
    async fn check(&mut self) -> Result<(), Bad> {
        self.quiet().await;
        // Now and then a user wants to know who's there.
        self.looks += 1;
        let ask = self.looks % 4 == 0;
        if ask {
            for m in self.members.iter_mut() {
                if let Some(r) = m.run.as_mut() {
                    r.node.request_list().await.map_err(|e| ("no-list".to_string(), json!({"error": e.to_string()})))?;
                }
            }
            self.quiet().await;
        }
        let before: BTreeMap<usize, BTreeSet<B>> = self.up().iter().map(|i| (*i, self.hub.lock().unwrap().peers(&self.id(*i)))).collect();
        for m in self.members.iter_mut() {
            if let Some(r) = m.run.as_mut() {
                r.timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
            }
        }
        self.quiet().await;
        for i in self.up() {
            let id = self.id(i);
            let peers = self.hub.lock().unwrap().peers(&id);
            let listed: BTreeSet<B> = self.hub.lock().unwrap().nodes.keys().cloned().collect();
            let n = &self.members[i].run.as_ref().unwrap().node;
            let events = n.gossip.as_ref().unwrap().chat_events();
            for e in &events {
                if self.texts.get(&e.msg).map(|t| t.0) != Some(bytes(&e.src)) {
                    return Err(("text-nobody-wrote".into(), json!({"node": i, "len": e.msg.len()})));
                }
                // The clock is only read while it is written.
                if self.times.get(&e.msg).map(|t| e.created < t.0 || t.1 < e.created).unwrap_or(true) {
                    return Err(("text-with-wrong-time".into(), json!({"node": i, "created": e.created})));
                }
            }
            let chat: BTreeSet<&String> = events.iter().map(|e| &e.msg).collect();
            if chat.len() != events.len() {
                return Err(("text-shown-twice".into(), json!({"node": i})));
            }
            let infos = n.nodes_info_all().map_err(|e| ("no-infos".to_string(), json!({"error": e.to_string()})))?;
            if infos.get(&n.node_config.info.get_id()).map(|i| &i.name) != Some(&n.node_config.info.name) {
                return Err(("own-info-missing".into(), json!({"node": i})));
            }
            for (iid, info) in &infos {
                let known = self.members.iter().find(|m| m.config.info.get_id() == *iid);
                if known.is_none() || *iid != info.get_id() {
                    return Err(("info-of-unknown-node".into(), json!({"node": i})));
                }
            }
            let known: BTreeSet<B> = infos.keys().map(bytes).collect();
            let got: Vec<B> = n.nodes_connected().unwrap().iter().map(|x| bytes(&x.get_id())).collect();
            let set: BTreeSet<B> = got.iter().cloned().collect();
            let want: BTreeSet<B> = before[&i].intersection(&known).cloned().collect();
            if set != want || set.len() != got.len() {
                if std::env::var("MON_DEBUG").is_ok() {
                    let nm = |b: &B| self.members.iter().position(|m| bytes(&m.config.info.get_id()) == *b);
                    eprintln!("node {i} shown {:?} peers {:?} known {:?}", got.iter().map(nm).collect::<Vec<_>>(), peers.iter().map(nm).collect::<Vec<_>>(), known.iter().map(nm).collect::<Vec<_>>());
                    eprintln!("stats {:?}", n.random.as_ref().unwrap().stats.borrow().connected);
                }
                return Err(("wrong-connected-nodes".into(), json!({"node": i, "shown": got.len(), "connected": peers.len(), "known": want.len()})));
            }
            let online: BTreeSet<B> = n.nodes_online().unwrap().iter().map(|x| bytes(&x.get_id())).collect();
            if !want.is_subset(&online) {
                return Err(("connected-node-not-online".into(), json!({"node": i})));
            }
            // Nodes which couldn't be reached for a while are only there again with the next list.
            let together = !self.ev.contains_key("partitions");
            if ask && together {
                // It just got a list of all nodes.
                let mut all: BTreeSet<B> = listed.intersection(&known).cloned().collect();
                all.remove(&id);
                if !all.is_subset(&online) {
                    return Err(("wrong-online-nodes".into(), json!({"node": i, "shown": online.len(), "listed": listed.len(), "with info": all.len()})));
                }
                if !all.is_subset(&want) {
                    *self.ev.entry("online-but-not-connected").or_default() += 1;
                }
            }
            if let Some(st) = &n.stat {
                let st = st.borrow();
                let c: BTreeSet<B> = st.connected.iter().map(bytes).collect();
                if c != peers || c.len() != st.connected.len() {
                    return Err(("wrong-statistics".into(), json!({"node": i, "shown": st.connected.len(), "connected": peers.len()})));
                }
                let o: BTreeSet<B> = st.online.iter().map(bytes).collect();
                if o != listed {
                    return Err(("wrong-online-statistics".into(), json!({"node": i, "shown": o.len(), "listed": listed.len()})));
                }
                // Everybody gets a new list when a node starts.
                let hub = self.hub.lock().unwrap();
                if let Some(x) = st.node_infos_connected().iter().find(|x| hub.nodes.get(&bytes(&x.get_id())).map(|h| &h.info.name) != Some(&x.name)) {
                    return Err(("old-info-in-statistics".into(), json!({"node": i, "shown": x.name})));
                }
                let ci: BTreeSet<B> = st.node_infos_connected().iter().map(|x| bytes(&x.get_id())).collect();
                if ci != peers {
                    return Err(("wrong-infos-in-statistics".into(), json!({"node": i, "shown": ci.len(), "connected": peers.len()})));
                }
            }
            *self.ev.entry("looked").or_default() += 1;
        }
        Ok(())
    }

    async fn flos(&mut self, i: usize) -> BTreeMap<(B, B), u32> {
        let r = self.members[i].run.as_mut().unwrap();
        let ds = r.node.dht_storage.as_mut().unwrap();
        ds.get_flos()
            .await
            .unwrap()
            .iter()
            .map(|f| {
                (
                    (f.realm_id().to_bytes().try_into().unwrap(), f.flo_id().to_bytes().try_into().unwrap()),
                    f.version(),
                )
            })
            .collect()
    }

    async fn restart(&mut self, i: usize, rng: &mut StdRng, crash: bool) -> Result<(), Bad> {
        if !crash {
            self.quiet().await;
        }
        let signer = self.members[i].run.as_mut().unwrap().node.crypto_storage.get_signer().get_id();
        let (chat, flos) = (self.chat(i), if crash { BTreeMap::new() } else { self.flos(i).await });
        self.stop(i);
        if crash {
            // The disk holds what it held at some moment since everything was quiet.
            let (log, quiet) = {
                let d = self.members[i].store.0.lock().unwrap();
                (d.log.clone(), self.members[i].quiet)
            };
            let at = rng.gen_range(quiet.max(1)..=log.len().max(quiet.max(1)));
            self.members[i].store = Store::of(log[at - 1].clone());
            // Nobody was told that these are stored.
            for (j, t, f) in &self.recent {
                if *j == i {
                    match t {
                        Some(t) => self.texts.get_mut(t).unwrap().1 = true,
                        None => self.flos[*f].1 = true,
                    }
                }
            }
            self.ev("crashed");
        }
        self.quiet().await;
        if rng.gen() {
            self.minute(3).await;
            self.quiet().await;
        }
        if rng.gen_range(0..3) == 0 {
            // The user gives it a new name. The infos are ordered by their time in milliseconds.
            std::thread::sleep(std::time::Duration::from_millis(3));
            let m = &mut self.members[i];
            let mut config = Node::get_config(m.store.clone_box()).unwrap();
            config.info.name = format!("node {i}/{}", rng.gen_range(0..1000));
            Node::set_config(m.store.clone_box(), &config.encode()).unwrap();
            m.config.info.name = config.info.name;
            self.ev("renamed");
        }
        self.start(i).await;
        let (id, new) = (self.id(i), self.members[i].run.as_ref().unwrap().node.node_config.info.get_id());
        if bytes(&new) != id {
            return Err(("other-identity-after-restart".into(), json!({"node": i, "crash": crash})));
        }
        if !crash {
            let again = self.chat(i);
            if let Some((t, _)) = chat.iter().find(|(t, _)| !again.contains_key(*t)) {
                return Err(("text-lost-by-restart".into(), json!({"node": i, "len": t.len(), "had": chat.len(), "has": again.len()})));
            }
            let f = self.flos(i).await;
            if let Some((_, v)) = flos.iter().find(|(k, v)| f.get(*k).map(|x| x < *v).unwrap_or(true)) {
                return Err(("page-lost-by-restart".into(), json!({"node": i, "version": v, "had": flos.len(), "has": f.len()})));
            }
            let s = self.members[i].run.as_mut().unwrap().node.crypto_storage.get_signer().get_id();
            if s != signer {
                return Err(("key-lost-by-restart".into(), json!({"node": i})));
            }
            self.ev("restarted");
        }
        self.quiet().await;
        Ok(())
    }
}

async fn e01_case(rng: &mut StdRng) -> Result<BTreeMap<&'static str, u64>, Bad> {
    let n = rng.gen_range(2..7);
    let mut w = World {
        hub: Arc::new(Mutex::new(Hub {
            rng: Some(rand::SeedableRng::seed_from_u64(rng.gen())),
            ..Default::default()
        })),
        members: vec![],
        texts: BTreeMap::new(),
        times: BTreeMap::new(),
        looks: 0,
        flos: vec![],
        recent: vec![],
        ev: BTreeMap::new(),
    };
    for i in 0..n {
        let store = Store::default();
        let mut config = Node::get_config(store.clone_box()).unwrap();
        config.info.name = format!("node {i}");
        Node::set_config(store.clone_box(), &config.encode()).unwrap();
        w.members.push(Member { config, store, run: None, quiet: 0 });
        w.start(i).await;
        if rng.gen() {
            w.minute(rng.gen_range(0..3)).await;
        }
    }
    w.quiet().await;
    // A realm of the first node
    let owner = SignerEd25519::new();
    let cond = Condition::Verifier(owner.verifier());
    let realm = FloRealm::new(
        "test",
        cond.clone(),
        RealmConfig {
            max_space: 10_000_000,
            max_flo_size: 100_000,
        },
        &[&owner],
    )
    .unwrap();
    let rid = realm.realm_id();
    w.members[0].run.as_mut().unwrap().node.dht_storage.as_mut().unwrap().store_flo(realm.flo().clone()).unwrap();
    for _ in 0..3 {
        w.minute(4).await;
    }
    w.quiet().await;
    w.hub.lock().unwrap().loss = *pick(rng, &[0., 0., 0.1, 0.4]);
    let steps = rng.gen_range(5..30);
    for step in 0..steps {
        let up = w.up();
        let some = |rng: &mut StdRng| *pick(rng, &up);
        match rng.gen_range(0..12) {
            0..=3 if up.len() > 0 && w.texts.len() < MAX_TEXTS => {
                let i = some(rng);
                let len = rng.gen_range(0..60);
                let t = format!("{step}: {}", rnd_string(rng, len));
                let (id, r) = (w.id(i), w.members[i].run.as_mut().unwrap());
                let before = now();
                r.node.add_chat_message(t.clone()).await.map_err(|e| ("chat-refused".to_string(), json!({"error": e.to_string()})))?;
                w.times.insert(t.clone(), (before, now()));
                w.recent.push((i, Some(t.clone()), 0));
                w.texts.insert(t, (id, false));
                w.ev("texts");
                let crash = rng.gen_range(0..8) == 0;
                if crash {
                    // In the middle of it
                    w.restart(i, rng, true).await?;
                }
            }
            4..=6 if up.len() > 0 => {
                let i = some(rng);
                let r = w.members[i].run.as_mut().unwrap();
                let ds = r.node.dht_storage.as_mut().unwrap();
                let len = rng.gen_range(0..300);
                let d: Bytes = rnd_bytes(rng, len).into();
                let old = rng.gen_range(0..w.flos.len().max(1));
                if w.flos.len() > 0 && rng.gen() {
                    let f = w.flos[old].0.clone().edit_data_signers(cond.clone(), |x| *x = d, &[&owner]).unwrap();
                    ds.store_flo(f.flo().clone()).unwrap();
                    w.flos[old] = (f, false);
                    w.recent.push((i, None, old));
                    w.ev("page-updates");
                } else {
                    let f = FloWrapper::<Bytes>::from_type(rid.clone(), cond.clone(), d, &[&owner]).unwrap();
                    ds.store_flo(f.flo().clone()).unwrap();
                    w.flos.push((f, false));
                    w.recent.push((i, None, w.flos.len() - 1));
                    w.ev("pages");
                }
            }
            7 => w.minute(rng.gen_range(0..8)).await,
            8 if up.len() > 0 => {
                let i = some(rng);
                w.restart(i, rng, false).await?;
            }
            9 if up.len() > 1 => {
                // A connection breaks
                let mut hub = w.hub.lock().unwrap();
                let all: Vec<_> = hub.conns.iter().cloned().collect();
                if all.len() > 0 {
                    let (a, b) = *pick(rng, &all);
                    hub.disconnect(a, b);
                }
            }
            10 if up.len() > 1 => {
                // The network falls apart, and later comes together.
                {
                    let mut hub = w.hub.lock().unwrap();
                    for x in hub.nodes.values_mut() {
                        x.group = rng.gen_range(0..2);
                    }
                    for (a, b) in hub.conns.clone() {
                        if hub.nodes[&a].group != hub.nodes[&b].group {
                            hub.disconnect(a, b);
                        }
                    }
                }
                w.ev("partitions");
                if rng.gen() {
                    w.minute(rng.gen_range(0..5)).await;
                }
            }
            11 => {
                // A node leaves for longer, or comes back.
                let i = rng.gen_range(0..n);
                if w.members[i].run.is_some() && up.len() > 1 {
                    w.quiet().await;
                    w.stop(i);
                    w.ev("left");
                } else if w.members[i].run.is_none() {
                    w.start(i).await;
                }
            }
            _ => {}
        }
        if rng.gen() {
            w.quiet().await;
            w.check().await?;
        }
    }
    // All nodes are back, and nothing is lost anymore.
    for i in 0..n {
        if w.members[i].run.is_none() {
            w.start(i).await;
        }
    }
    {
        let mut hub = w.hub.lock().unwrap();
        hub.loss = 0.;
        for x in hub.nodes.values_mut() {
            x.group = 0;
        }
    }
    for _ in 0..2 * n + 6 {
        w.minute(15).await;
        w.quiet().await;
        w.check().await?;
    }
    // Everybody sees the same.
    let all: BTreeSet<String> = w.texts.iter().filter(|t| !t.1 .1).map(|t| t.0.clone()).collect();
    let mut first: Option<BTreeSet<String>> = None;
    for i in 0..n {
        let chat: BTreeSet<String> = w.chat(i).into_keys().collect();
        if let Some(t) = all.iter().find(|t| !chat.contains(*t)) {
            return Err(("text-not-everywhere".into(), json!({"node": i, "nodes": n, "text": format!("{:?}", t), "writer": w.members.iter().position(|m| bytes(&m.config.info.get_id()) == w.texts[t].0), "has": chat.len(), "all": all.len()})));
        }
        if *first.get_or_insert(chat.clone()) != chat {
            return Err(("different-chats".into(), json!({"node": i, "has": chat.len()})));
        }
        let node = &w.members[i].run.as_ref().unwrap().node;
        let infos = node.nodes_info_all().unwrap();
        for m in &w.members {
            let id = m.config.info.get_id();
            if infos.get(&id).map(|x| x.name.clone()) != Some(m.config.info.name.clone()) {
                return Err(("info-not-everywhere".into(), json!({"node": i, "of": m.config.info.name})));
            }
        }
        let online: BTreeSet<B> = node.nodes_online().unwrap().iter().map(|x| bytes(&x.get_id())).collect();
        if (0..n).any(|j| j != i && !online.contains(&w.id(j))) || online.contains(&w.id(i)) {
            return Err(("wrong-online-nodes".into(), json!({"node": i, "shown": online.len(), "nodes": n})));
        }
        let node = &mut w.members[i].run.as_mut().unwrap().node;
        let ds = node.dht_storage.as_mut().unwrap();
        for (f, maybe) in &w.flos {
            if *maybe {
                continue;
            }
            match ds.get_flo::<Bytes>(&f.global_id()).await {
                Ok(g) if g.flo() == f.flo() => {}
                Ok(g) => return Err(("old-page-read".into(), json!({"node": i, "nodes": n, "want": f.version(), "got": g.version()}))),
                Err(e) => return Err(("page-not-found".into(), json!({"node": i, "nodes": n, "version": f.version(), "error": e.to_string()}))),
            }
            *w.ev.entry("page-reads").or_default() += 1;
        }
    }
    *w.ev.entry("texts-everywhere").or_default() += (all.len() * n) as u64;
    let (sent, lost) = {
        let h = w.hub.lock().unwrap();
        (h.sent, h.lost)
    };
    *w.ev.entry("messages").or_default() += sent;
    *w.ev.entry("lost-messages").or_default() += lost;
    for i in 0..n {
        w.stop(i);
    }
    Ok(w.ev)
}

fn e01(mon: &mut Mon) {
    mon.rule("two to six whole nodes with all modules over a network which loses messages, breaks connections, and falls apart, with nodes which leave, restart and crash, while users write texts and store pages; distinct = kinds observed");
    mon.assume("In the end, all nodes are back and nothing is lost for some minutes");
    for (e, n) in [("texts", 50), ("pages", 20), ("page-updates", 10), ("restarted", 10), ("renamed", 5), ("crashed", 5), ("partitions", 10), ("left", 10), ("page-reads", 50), ("texts-everywhere", 100), ("looked", 500)] {
        mon.require(e, n);
    }
    for i in 0..mon.n(30, 600) {
        let Some(mut rng) = mon.begin(format!("nodes{i}")) else { continue };
        let rt = rt_paused();
        match drive(&rt, 300, e01_case(&mut rng)) {
            Some(Ok(ev)) => {
                mon.nontrivial(format!("{ev:?}"));
                for (e, n) in &ev {
                    mon.count(e, *n);
                }
                mon.sample(json!(ev));
            }
            Some(Err((sig, v))) => mon.violation(&sig, v),
            None => mon.violation("network-never-quiet", json!({})),
        }
        mon.check_panics("nodes");
        if mon.failed() {
            return;
        }
    }
}

fn main() {
    main_with(|mon, id| match id {
        "F02" => f02(mon),
        "E01" => e01(mon),
        _ => panic!("unknown property {id}"),
    })
}
