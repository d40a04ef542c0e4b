//! G01, G02: events and their distribution; R01: choice of connections.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
};

use flarch::{
    broker::Broker,
    data_storage::{DataStorage, StorageError},
    nodeids::{NodeID, NodeIDs, U256},
};
use flmodules::{
    gossip_events::{
        broker::{Gossip, GossipOut},
        core::{Category, Event, EventsStorage},
        intern::ModuleMessage,
    },
    network::broker::{BrokerNetwork, NetworkIn, NetworkOut, MODULE_NAME as NET_MODULE},
    nodeconfig::NodeInfo,
    random_connections::{
        broker::{BrokerRandom, RandomBroker, RandomIn, RandomOut},
        core::RandomStats,
        intern::ModuleMessage as RandMessage,
        nodes::{NodeTime, Nodes},
    },
    router::messages::NetworkWrapper,
    timer::{Timer, TimerMessage},
    Modules,
};
use mon::{
    drive, main_with, rt_current,
    util::{pick, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use tokio::sync::mpsc::UnboundedReceiver;

type Bad = (String, serde_json::Value);
type B = [u8; 32];
const GOSSIP: &str = "Gossip";

fn bytes(id: &U256) -> B {
    let mut a = [0u8; 32];
    a.copy_from_slice(id.as_ref());
    a
}

fn rnd_id(rng: &mut StdRng) -> U256 {
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    U256::from(a)
}

#[derive(Clone, Default)]
struct Store {
    kv: Arc<Mutex<HashMap<String, String>>>,
}
impl DataStorage for Store {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        Ok(self
            .kv
            .lock()
            .unwrap()
            .get(key)
            .cloned()
            .unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        self.kv.lock().unwrap().insert(key.into(), value.into());
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.kv.lock().unwrap().remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

const CATS: [Category; 2] = [Category::TextMessage, Category::NodeInfo];

fn cat_name(c: Category) -> &'static str {
    match c {
        Category::TextMessage => "TextMessage",
        Category::NodeInfo => "NodeInfo",
    }
}

/// All max_events and unique fields found in a saved storage.
fn limits(doc: &str) -> BTreeMap<&'static str, (usize, bool)> {
    let v: serde_yaml::Value = serde_yaml::from_str(doc).unwrap();
    let mut ret = BTreeMap::new();
    fn walk(v: &serde_yaml::Value, ret: &mut BTreeMap<&'static str, (usize, bool)>) {
        if let serde_yaml::Value::Mapping(m) = v {
            for (k, v) in m {
                for c in CATS {
                    if k.as_str() == Some(cat_name(c)) {
                        let cfg = &v["config"];
                        ret.insert(
                            cat_name(c),
                            (
                                cfg["max_events"].as_u64().unwrap() as usize,
                                cfg["unique"].as_bool().unwrap(),
                            ),
                        );
                    }
                }
                walk(v, ret);
            }
        }
    }
    walk(&v, &mut ret);
    ret
}

/// An empty storage with other limits.
fn with_limits(text: usize, info: usize) -> String {
    let doc = EventsStorage::new().get().unwrap();
    let mut v: serde_yaml::Value = serde_yaml::from_str(&doc).unwrap();
    fn walk(v: &mut serde_yaml::Value, text: usize, info: usize) {
        if let serde_yaml::Value::Mapping(m) = v {
            for (k, v) in m.iter_mut() {
                for (c, n) in [("TextMessage", text), ("NodeInfo", info)] {
                    if k.as_str() == Some(c) {
                        v["config"]["max_events"] = serde_yaml::Value::from(n as u64);
                    }
                }
                walk(v, text, info);
            }
        }
    }
    walk(&mut v, text, info);
    serde_yaml::to_string(&v).unwrap()
}

fn all_events(es: &EventsStorage) -> BTreeMap<B, Event> {
    CATS.iter()
        .flat_map(|c| es.events(*c))
        .map(|e| (bytes(&e.get_id()), e))
        .collect()
}

/// Verifies that the storage holds exactly the newest of all events seen: of events created at
/// the same time, any may be kept.
fn newest(
    stored: &BTreeMap<B, Event>,
    ever: &BTreeMap<B, Event>,
    lim: &BTreeMap<&'static str, (usize, bool)>,
) -> Result<(), String> {
    if let Some((_, e)) = stored.iter().find(|(k, v)| ever.get(*k) != Some(v)) {
        return Err(format!("event which was never added: {e:?}"));
    }
    for c in CATS {
        let (max, unique) = lim[cat_name(c)];
        let mut have: Vec<&Event> = stored.values().filter(|e| e.category == c).collect();
        let mut want: Vec<&Event> = ever.values().filter(|e| e.category == c).collect();
        if unique {
            let mut best: BTreeMap<B, &Event> = BTreeMap::new();
            for e in want {
                let b = best.entry(bytes(&e.src)).or_insert(e);
                if e.created > b.created {
                    *b = e;
                }
            }
            want = best.into_values().collect();
            let srcs: BTreeSet<B> = have.iter().map(|e| bytes(&e.src)).collect();
            if srcs.len() != have.len() {
                return Err("more than one event of the same node".into());
            }
        }
        have.sort_by_key(|e| -(e.created as i128));
        want.sort_by_key(|e| -(e.created as i128));
        want.truncate(max);
        let times = |v: &Vec<&Event>| v.iter().map(|e| e.created).collect::<Vec<_>>();
        if times(&have) != times(&want) {
            return Err(format!(
                "{}: {} events instead of the newest {} of {}",
                cat_name(c),
                have.len(),
                want.len(),
                ever.values().filter(|e| e.category == c).count()
            ));
        }
    }
    Ok(())
}

fn rnd_event(rng: &mut StdRng, srcs: &[NodeID], span: i64) -> Event {
    let len = rng.gen_range(0..12);
    Event {
        category: *pick(rng, &CATS),
        src: *pick(rng, srcs),
        created: if span == 0 {
            *pick(rng, &[i64::MIN, i64::MAX, 0, -1, 1, i64::MAX - 1])
        } else {
            rng.gen_range(-span / 3..span)
        },
        msg: rnd_string(rng, len),
    }
}

#[derive(serde::Serialize, PartialEq, Eq, Hash)]
struct IdV1([u8; 32]);
#[derive(serde::Serialize)]
struct Conf {
    unique: bool,
    max_events: usize,
}
#[derive(serde::Serialize)]
struct Ev<I, C> {
    category: Category,
    src: I,
    created: C,
    msg: String,
}
#[derive(serde::Serialize)]
struct Evs<I: std::hash::Hash + Eq, S, C> {
    config: Conf,
    events: HashMap<I, Ev<S, C>>,
}
#[derive(serde::Serialize)]
struct Doc<I: std::hash::Hash + Eq, S, C> {
    storage: HashMap<Category, Evs<I, S, C>>,
}
#[derive(serde::Serialize)]
#[allow(dead_code)]
enum Docs {
    V1(Doc<IdV1, IdV1, i64>),
    V2(Doc<U256, NodeID, f64>),
    V3(Doc<U256, NodeID, i64>),
    V4(Doc<U256, NodeID, i64>),
}

fn doc<I: std::hash::Hash + Eq, S, C>(
    evs: &BTreeMap<B, Event>,
    lim: &BTreeMap<&'static str, (usize, bool)>,
    id: impl Fn(&Event) -> I,
    src: impl Fn(NodeID) -> S,
    cr: impl Fn(i64) -> C,
) -> Doc<I, S, C> {
    Doc {
        storage: CATS
            .iter()
            .map(|c| {
                (
                    *c,
                    Evs {
                        config: Conf {
                            unique: lim[cat_name(*c)].1,
                            max_events: lim[cat_name(*c)].0,
                        },
                        events: evs
                            .values()
                            .filter(|e| e.category == *c)
                            .map(|e| {
                                (
                                    id(e),
                                    Ev {
                                        category: e.category,
                                        src: src(e.src),
                                        created: cr(e.created),
                                        msg: e.msg.clone(),
                                    },
                                )
                            })
                            .collect(),
                    },
                )
            })
            .collect(),
    }
}

fn g01(mon: &mut Mon) {
    mon.rule("random histories of events of both categories, with ties, repetitions and small limits, and documents of all versions; distinct = (limits, events stored, span, evicted)");
    mon.require("events_added", 5_000);
    mon.require("evicted_or_refused", 500);
    mon.require("ties", 200);
    mon.require("documents_loaded", 200);
    mon.require("order_compared", 100);
    for i in 0..mon.n(400, 12_000) {
        let Some(mut rng) = mon.begin(format!("events-{i}")) else {
            continue;
        };
        let rng = &mut rng;
        let mut es = EventsStorage::new();
        let small = i % 4 != 0;
        if small {
            let d = with_limits(rng.gen_range(0..8), rng.gen_range(0..8));
            if es.set(&d).is_err() {
                mon.violation("own-document-refused", json!({"doc": d}));
                continue;
            }
        }
        let start = es.clone();
        let lim = limits(&es.get().unwrap());
        let nsrc = if small {
            rng.gen_range(1..12)
        } else {
            rng.gen_range(1..140)
        };
        let srcs: Vec<NodeID> = (0..nsrc).map(|_| rnd_id(rng)).collect();
        let span = *pick(rng, &[0, 4, 20, 1000, 1 << 50]);
        let steps = if small {
            rng.gen_range(1..60)
        } else {
            rng.gen_range(50..400)
        };
        let mut ever: BTreeMap<B, Event> = BTreeMap::new();
        let mut log: Vec<Event> = vec![];
        let mut evicted = 0u64;
        let mut bad: Option<Bad> = None;
        for _ in 0..steps {
            let ev = match ever.len() > 0 && rng.gen_bool(0.2) {
                true => ever
                    .values()
                    .nth(rng.gen_range(0..ever.len()))
                    .unwrap()
                    .clone(),
                false => rnd_event(rng, &srcs, span),
            };
            let id = bytes(&ev.get_id());
            if ever
                .values()
                .any(|e| e.created == ev.created && *e != ev && e.category == ev.category)
            {
                mon.count("ties", 1);
            }
            let before = all_events(&es);
            let ret = es.add_event(ev.clone());
            let after = all_events(&es);
            mon.count("events_added", 1);
            ever.insert(id, ev.clone());
            log.push(ev.clone());
            let is_new = !before.contains_key(&id) && after.contains_key(&id);
            if !is_new {
                evicted += 1;
            }
            if ret != is_new {
                bad = Some((
                    "wrong-answer".into(),
                    json!({"new": is_new, "returned": ret, "event": format!("{ev:?}"), "steps": log.len()}),
                ));
                break;
            }
            if let Err(e) = newest(&after, &ever, &lim) {
                bad = Some((
                    "not-the-newest".into(),
                    json!({"why": e, "limits": format!("{lim:?}"), "steps": log.len()}),
                ));
                break;
            }
            // All views agree
            let ids: BTreeSet<B> = es.event_ids().iter().map(bytes).collect();
            let probe = rnd_id(rng);
            let (k, known) = match ever.len() {
                0 => (probe, false),
                _ => {
                    let k = *ever.keys().nth(rng.gen_range(0..ever.len())).unwrap();
                    (U256::from(k), after.contains_key(&k))
                }
            };
            let views = [
                ("ids", ids == after.keys().cloned().collect()),
                ("count", es.event_ids().len() == after.len()),
                ("unknown", es.event(&probe).is_none()),
                (
                    "event",
                    es.event(&k) == known.then(|| ever[&bytes(&k)].clone()),
                ),
                (
                    "by ids",
                    es.get_events_by_ids(vec![probe, k])
                        == known
                            .then(|| ever[&bytes(&k)].clone())
                            .into_iter()
                            .collect::<Vec<_>>(),
                ),
                (
                    "category",
                    CATS.iter()
                        .all(|c| es.events(*c).iter().all(|e| e.category == *c)),
                ),
            ];
            if let Some((v, _)) = views.iter().find(|(_, ok)| !ok) {
                bad = Some((
                    "views-differ".into(),
                    json!({"view": v, "steps": log.len()}),
                ));
                break;
            }
        }
        mon.count("evicted_or_refused", evicted);
        let have = all_events(&es);
        if bad.is_none() {
            // Another order with repetitions gives the same
            let mut other = start.clone();
            log.shuffle(rng);
            for e in log.iter().chain(log.iter().take(5)) {
                other.add_event(e.clone());
            }
            mon.count("order_compared", 1);
            if all_events(&other) != have {
                let ids = |m: &BTreeMap<B, Event>| {
                    m.values()
                        .map(|e| format!("{:?} {} {}", e.category, e.src, e.created))
                        .collect::<Vec<_>>()
                };
                let o = all_events(&other);
                bad = Some((
                    "depends-on-order".into(),
                    json!({"span": span, "only first": ids(&have.iter().filter(|(k, _)| !o.contains_key(*k)).map(|(k, v)| (*k, v.clone())).collect()),
                        "only second": ids(&o.iter().filter(|(k, _)| !have.contains_key(*k)).map(|(k, v)| (*k, v.clone())).collect())}),
                ));
            }
        }
        if bad.is_none() {
            // Saved and loaded in all versions
            let mut docs = vec![
                ("saved", es.get().unwrap()),
                (
                    "V3",
                    serde_yaml::to_string(&Docs::V3(doc(
                        &have,
                        &lim,
                        |e| e.get_id(),
                        |i| i,
                        |c| c,
                    )))
                    .unwrap(),
                ),
                (
                    "V3 with other keys",
                    serde_yaml::to_string(&Docs::V3(doc(
                        &have,
                        &lim,
                        |e| {
                            let mut b = bytes(&e.get_id());
                            b[3] ^= 77;
                            U256::from(b)
                        },
                        |i| i,
                        |c| c,
                    )))
                    .unwrap(),
                ),
                (
                    "V4",
                    serde_yaml::to_string(&Docs::V4(doc(
                        &have,
                        &lim,
                        |e| e.get_id(),
                        |i| i,
                        |c| c,
                    )))
                    .unwrap(),
                ),
                (
                    "V1",
                    serde_yaml::to_string(&doc(
                        &have,
                        &lim,
                        |e| IdV1(bytes(&e.get_id())),
                        |i| IdV1(bytes(&i)),
                        |c| c,
                    ))
                    .unwrap(),
                ),
                (
                    "V1 tagged",
                    serde_yaml::to_string(&Docs::V1(doc(
                        &have,
                        &lim,
                        |e| IdV1(bytes(&e.get_id())),
                        |i| IdV1(bytes(&i)),
                        |c| c,
                    )))
                    .unwrap(),
                ),
            ];
            if span != 0 {
                docs.push((
                    "V2",
                    serde_yaml::to_string(&Docs::V2(doc(
                        &have,
                        &lim,
                        |e| e.get_id(),
                        |i| i,
                        |c| c as f64,
                    )))
                    .unwrap(),
                ));
            }
            // V1 wrote its times as floats from integers
            for (name, d) in docs {
                if name == "V1" && span == 0 || name == "V1 tagged" && span == 0 {
                    continue;
                }
                let mut l = EventsStorage::new();
                let r = l.set(&d);
                mon.count("documents_loaded", 1);
                if r.is_err()
                    || all_events(&l) != have
                    || l.event_ids().iter().map(bytes).collect::<BTreeSet<_>>()
                        != have.keys().cloned().collect()
                {
                    bad = Some((
                        "document-differs".into(),
                        json!({"format": name, "result": format!("{r:?}"), "doc": d.chars().take(500).collect::<String>()}),
                    ));
                    break;
                }
                // Each event is known under its ID
                if let Some((_, e)) = have.iter().find(|(k, e)| {
                    l.event(&U256::from(**k)).as_ref() != Some(*e)
                        || l.get_events_by_ids(vec![U256::from(**k)]).len() != 1
                }) {
                    bad = Some((
                        "loaded-event-not-found".into(),
                        json!({"format": name, "event": format!("{e:?}")}),
                    ));
                    break;
                }
                if let Some(e) = have.values().find(|e| l.add_event((*e).clone())) {
                    bad = Some((
                        "loaded-event-added-again".into(),
                        json!({"format": name, "event": format!("{e:?}")}),
                    ));
                    break;
                }
                // It goes on the same way
                let e = rnd_event(rng, &srcs, span);
                let mut orig = es.clone();
                if l.add_event(e.clone()) != orig.add_event(e)
                    || all_events(&l) != all_events(&orig)
                {
                    bad = Some((
                        "document-goes-on-differently".into(),
                        json!({"format": name}),
                    ));
                    break;
                }
            }
            let junk = *pick(
                rng,
                &[
                    "",
                    "- 1",
                    "storage: 3",
                    "V4:\n  storage: x",
                    "{",
                    "V9: {}",
                    "\0",
                ],
            );
            let mut l = es.clone();
            if bad.is_none() && (l.set(junk).is_ok() || all_events(&l) != have) {
                bad = Some(("junk-loaded".into(), json!({"junk": junk})));
            }
        }
        mon.check_panics("events");
        match bad {
            Some((s, v)) => mon.violation(&s, v),
            None => {
                mon.count("oracle_checks", steps as u64);
                mon.nontrivial((format!("{lim:?}"), have.len(), span, evicted));
                mon.sample(json!({"limits": format!("{lim:?}"), "added": log.len(), "distinct": ever.len(), "stored": have.len(), "refused or evicted": evicted}));
            }
        }
    }
}

struct GNode {
    id: NodeID,
    info: NodeInfo,
    store: Store,
    rnd: BrokerRandom,
    to_net: UnboundedReceiver<RandomIn>,
    gossip: Gossip,
    out: UnboundedReceiver<GossipOut>,
    timer: Timer,
    /// What was stored when it started, and announced since
    initial: BTreeSet<B>,
    announced: BTreeMap<B, u32>,
    /// To whom it may send
    peers: BTreeSet<B>,
    lives: u32,
}

impl GNode {
    async fn start(id: NodeID, info: NodeInfo, store: Store, lives: u32) -> Self {
        let mut rnd: BrokerRandom = Broker::new();
        let to_net = rnd.get_tap_in().await.unwrap().0;
        let mut timer = Timer::simul();
        let mut gossip = Gossip::start(
            store.clone_box(),
            info.clone(),
            timer.broker.clone(),
            rnd.clone(),
        )
        .await
        .unwrap();
        let out = gossip.broker.get_tap_out().await.unwrap().0;
        gossip.broker.settle(vec![]).await.unwrap();
        timer.broker.settle(vec![]).await.unwrap();
        let initial = gossip.event_ids().iter().map(bytes).collect();
        Self {
            id,
            info,
            store,
            rnd,
            to_net,
            gossip,
            out,
            timer,
            initial,
            announced: BTreeMap::new(),
            peers: BTreeSet::new(),
            lives,
        }
    }

    fn stored(&self) -> BTreeMap<B, Event> {
        CATS.iter()
            .flat_map(|c| self.gossip.events(*c))
            .map(|e| (bytes(&e.get_id()), e))
            .collect()
    }
}

struct GHub {
    nodes: Vec<GNode>,
    queue: Vec<(NodeID, NodeID, NetworkWrapper)>,
    ever: BTreeMap<B, Event>,
    kinds: BTreeMap<&'static str, u64>,
    new_events: u64,
    hops: u64,
}

impl GHub {
    fn pos(&self, id: &NodeID) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == *id)
    }

    /// Takes what a node sent and announced; `batch` is the number of events it got at once.
    async fn collect(&mut self, i: usize, batch: usize) -> Result<(), Bad> {
        let n = &mut self.nodes[i];
        n.gossip.broker.settle(vec![]).await.unwrap();
        n.rnd.settle(vec![]).await.unwrap();
        n.gossip.broker.settle(vec![]).await.unwrap();
        let stored = n.stored();
        while let Ok(GossipOut::NewEvent(e)) = n.out.try_recv() {
            self.new_events += 1;
            let id = bytes(&e.get_id());
            if *n.announced.entry(id).and_modify(|c| *c += 1).or_insert(1) > 1 {
                return Err(("announced-twice".into(), json!({"event": format!("{e:?}")})));
            }
            if n.initial.contains(&id) && e.src != n.id {
                return Err((
                    "known-event-announced".into(),
                    json!({"event": format!("{e:?}")}),
                ));
            }
            if batch <= 1 && !stored.contains_key(&id) {
                return Err((
                    "announced-but-not-stored".into(),
                    json!({"event": format!("{e:?}")}),
                ));
            }
        }
        if let Some((_, e)) = stored
            .iter()
            .find(|(id, _)| !n.initial.contains(*id) && !n.announced.contains_key(*id))
        {
            // The one created at the start may be stored before the tap is in place
            if e.src != n.id || e.msg != n.info.encode() {
                return Err((
                    "stored-but-not-announced".into(),
                    json!({"event": format!("{e:?}")}),
                ));
            }
        }
        for (id, e) in &stored {
            if e.src == n.id && e.msg == n.info.encode() {
                self.ever.insert(*id, e.clone());
            }
        }
        // What is shown is also what's saved.
        let saved = n.store.get(GOSSIP).unwrap();
        if saved != "" {
            let mut es = EventsStorage::new();
            if let Err(e) = es.set(&saved) {
                return Err(("saved-unreadable".into(), json!({"error": e.to_string()})));
            }
            if all_events(&es) != stored {
                return Err((
                    "saved-differs".into(),
                    json!({"shown": stored.len(), "saved": all_events(&es).len()}),
                ));
            }
        }
        while let Ok(m) = n.to_net.try_recv() {
            match m {
                RandomIn::NetworkWrapperToNetwork(to, w) => {
                    if to == n.id || !n.peers.contains(&bytes(&to)) {
                        return Err((
                            "sent-to-stranger".into(),
                            json!({"to": to.to_string(), "self": to == n.id}),
                        ));
                    }
                    let Some(m) = w.unwrap_yaml::<ModuleMessage>(GOSSIP) else {
                        return Err(("sent-unreadable".into(), json!({"msg": format!("{w:?}")})));
                    };
                    *self
                        .kinds
                        .entry(match &m {
                            ModuleMessage::KnownEventIDs(_) => "KnownEventIDs",
                            ModuleMessage::Events(_) => "Events",
                            ModuleMessage::RequestEventIDs => "RequestEventIDs",
                            ModuleMessage::RequestEvents(_) => "RequestEvents",
                        })
                        .or_insert(0) += 1;
                    self.queue.push((n.id, to, w));
                }
                RandomIn::NodeFailure(_) => {}
            }
        }
        Ok(())
    }

    async fn deliver(&mut self, from: NodeID, to: NodeID, w: NetworkWrapper) -> Result<(), Bad> {
        self.hops += 1;
        let Some(i) = self.pos(&to) else {
            return Ok(());
        };
        let batch = match w.unwrap_yaml::<ModuleMessage>(GOSSIP) {
            Some(ModuleMessage::Events(es)) => {
                for e in &es {
                    self.ever.insert(bytes(&e.get_id()), e.clone());
                }
                es.len()
            }
            _ => 0,
        };
        // It may answer, but not more.
        let answer = self.nodes[i].peers.insert(bytes(&from));
        self.nodes[i]
            .rnd
            .emit_msg_out(RandomOut::NetworkWrapperFromNetwork(from, w))
            .unwrap();
        let ret = self.collect(i, batch).await;
        if answer {
            self.nodes[i].peers.remove(&bytes(&from));
        }
        ret
    }

    async fn connect(&mut self, i: usize, ids: Vec<NodeID>) -> Result<(), Bad> {
        self.nodes[i].peers = ids.iter().map(bytes).collect();
        self.nodes[i]
            .rnd
            .emit_msg_out(RandomOut::NodeIDsConnected(ids.into()))
            .unwrap();
        self.collect(i, 0).await
    }

    async fn tick(&mut self, i: usize) -> Result<(), Bad> {
        self.nodes[i]
            .timer
            .broker
            .emit_msg_out(TimerMessage::Minute)
            .unwrap();
        self.nodes[i].timer.broker.settle(vec![]).await.unwrap();
        self.collect(i, 0).await
    }

    async fn pump(&mut self, rng: &mut StdRng, max: u64) -> Result<(), Bad> {
        let start = self.hops;
        while self.queue.len() > 0 {
            let p = rng.gen_range(0..self.queue.len());
            let (from, to, w) = self.queue.swap_remove(p);
            self.deliver(from, to, w).await?;
            if self.hops - start > max {
                return Err((
                    "never-quiet".into(),
                    json!({"messages": max, "kinds": format!("{:?}", self.kinds)}),
                ));
            }
        }
        Ok(())
    }
}

async fn g02_case(mon: &mut Mon, rng: &mut StdRng) -> Result<(), Bad> {
    let n = rng.gen_range(2..7usize);
    let small = rng.gen_bool(0.7);
    let doc = match small {
        true => with_limits(rng.gen_range(1..8), rng.gen_range(1..8)),
        false => EventsStorage::new().get().unwrap(),
    };
    let lim = limits(&doc);
    let mut hub = GHub {
        nodes: vec![],
        queue: vec![],
        ever: BTreeMap::new(),
        kinds: BTreeMap::new(),
        new_events: 0,
        hops: 0,
    };
    for _ in 0..n {
        let id = rnd_id(rng);
        let mut store = Store::default();
        store.set(GOSSIP, &doc).unwrap();
        let info = NodeInfo::new_from_id(id);
        hub.nodes.push(GNode::start(id, info, store, 0).await);
    }
    for i in 0..n {
        hub.collect(i, 0).await?;
    }
    // Connected graphs, before and at the end
    let mut graph = || {
        let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut order: Vec<usize> = (0..n).collect();
        order.shuffle(rng);
        for i in 1..n {
            let (a, b) = (order[rng.gen_range(0..i)], order[i]);
            edges.insert((a.min(b), a.max(b)));
        }
        for _ in 0..rng.gen_range(0..n) {
            let (a, b) = (rng.gen_range(0..n), rng.gen_range(0..n));
            if a != b {
                edges.insert((a.min(b), a.max(b)));
            }
        }
        edges
    };
    let (before, edges) = (graph(), graph());
    let neighbours = |edges: &BTreeSet<(usize, usize)>, i: usize| -> Vec<usize> {
        edges
            .iter()
            .filter_map(|(a, b)| (*a == i).then_some(*b).or((*b == i).then_some(*a)))
            .collect()
    };
    let ids: Vec<NodeID> = hub.nodes.iter().map(|n| n.id).collect();
    let mut srcs = ids.clone();
    for _ in 0..rng.gen_range(0..if small { 8 } else { 130 }) {
        srcs.push(rnd_id(rng));
    }
    let span = *pick(rng, &[4, 50, 1 << 45]);
    let stranger = rnd_id(rng);
    let steps = rng.gen_range(5..if small { 80 } else { 300 });
    let (mut lost, mut dup, mut restarts, mut hostile) = (0u64, 0u64, 0u64, 0u64);
    for _ in 0..steps {
        let i = rng.gen_range(0..n);
        match rng.gen_range(0..20) {
            0..=5 => {
                let ev = match hub.ever.len() > 0 && rng.gen_bool(0.15) {
                    true => hub
                        .ever
                        .values()
                        .nth(rng.gen_range(0..hub.ever.len()))
                        .unwrap()
                        .clone(),
                    false => rnd_event(rng, &srcs, span),
                };
                hub.ever.insert(bytes(&ev.get_id()), ev.clone());
                hub.nodes[i].gossip.add_event(ev).await.unwrap();
                hub.collect(i, 1).await?;
            }
            6 => hub.tick(i).await?,
            7 | 8 => {
                let mut to = neighbours(&before, i);
                if rng.gen_bool(0.5) {
                    to.retain(|_| rng.gen_bool(0.5));
                }
                let to = to.into_iter().map(|j| ids[j]).collect();
                hub.connect(i, to).await?;
            }
            9 => {
                restarts += 1;
                let node = &hub.nodes[i];
                let before = node.stored();
                let (info, mut store, lives) =
                    (node.info.clone(), node.store.clone(), node.lives + 1);
                let junk = !small && rng.gen_bool(0.3);
                if junk {
                    let text = *pick(
                        rng,
                        &[
                            "",
                            "- 1",
                            "storage: 3",
                            "V4:\n  storage: x",
                            "{",
                            "V9: {}",
                            "\0",
                        ],
                    );
                    store.set(GOSSIP, text).unwrap();
                    mon.count("junk_in_storage", 1);
                    // What only this node had is lost.
                    hub.ever = hub
                        .nodes
                        .iter()
                        .enumerate()
                        .filter(|(j, _)| *j != i)
                        .flat_map(|(_, n)| n.stored())
                        .collect();
                }
                hub.nodes[i] = GNode::start(ids[i], info, store, lives).await;
                let node = &hub.nodes[i];
                let after = node.stored();
                for (id, e) in &before {
                    // Its own info replaces an older one, and this may throw out the oldest.
                    let own = e.src == ids[i] && e.category == Category::NodeInfo;
                    let oldest = e.category == Category::NodeInfo
                        && after
                            .values()
                            .filter(|a| a.category == Category::NodeInfo)
                            .all(|a| a.created >= e.created);
                    if !after.contains_key(id) && !own && !oldest && !junk {
                        return Err((
                            "lost-in-restart".into(),
                            json!({"event": format!("{e:?}"), "before": before.len(), "after": after.len()}),
                        ));
                    }
                }
                hub.collect(i, 0).await?;
            }
            10 => {
                hostile += 1;
                let from = *pick(rng, &[ids[i], ids[(i + 1) % n], stranger]);
                let known: Vec<U256> = hub.ever.keys().map(|k| U256::from(*k)).collect();
                let m = match rng.gen_range(0..7) {
                    0 => ModuleMessage::KnownEventIDs(
                        (0..rng.gen_range(0..20)).map(|_| rnd_id(rng)).collect(),
                    ),
                    1 => {
                        ModuleMessage::KnownEventIDs(known.iter().chain(&known).cloned().collect())
                    }
                    2 => ModuleMessage::RequestEvents(
                        (0..rng.gen_range(0..20)).map(|_| rnd_id(rng)).collect(),
                    ),
                    3 => {
                        ModuleMessage::RequestEvents(known.iter().chain(&known).cloned().collect())
                    }
                    4 => ModuleMessage::Events(vec![]),
                    5 => ModuleMessage::Events(
                        (0..rng.gen_range(1..6))
                            .map(|_| rnd_event(rng, &srcs, span))
                            .collect(),
                    ),
                    _ => ModuleMessage::RequestEventIDs,
                };
                let mut w = NetworkWrapper::wrap_yaml(GOSSIP, &m).unwrap();
                if rng.gen_bool(0.4) {
                    match rng.gen_range(0..4) {
                        0 => w.module = "Gossi".into(),
                        1 => {
                            let len = rng.gen_range(0..40);
                            w.msg = rnd_string(rng, len);
                        }
                        2 => w.msg = w.msg.chars().take(w.msg.chars().count() / 2).collect(),
                        _ => w.msg = "Events:\n  - category: Other\n    src: 1\n    created: x\n    msg: 3\n".into(),
                    }
                }
                if from != ids[i] {
                    hub.deliver(from, ids[i], w).await?;
                }
            }
            _ if hub.queue.len() > 0 => {
                let p = rng.gen_range(0..hub.queue.len());
                match rng.gen_range(0..10) {
                    0..=2 => {
                        lost += 1;
                        hub.queue.swap_remove(p);
                    }
                    3 | 4 => {
                        dup += 1;
                        let (f, t, w) = hub.queue[p].clone();
                        hub.deliver(f, t, w).await?;
                    }
                    _ => {
                        let (f, t, w) = hub.queue.swap_remove(p);
                        hub.deliver(f, t, w).await?;
                    }
                }
            }
            _ => {}
        }
    }
    mon.count("lost", lost);
    mon.count("duplicated", dup);
    mon.count("restarts", restarts);
    mon.count("hostile", hostile);
    let differing = hub
        .nodes
        .iter()
        .map(|n| n.stored().into_keys().collect::<Vec<_>>())
        .collect::<HashSet<_>>()
        .len();
    if differing > 1 {
        mon.count("diverged_before", 1);
    }
    // From here on nothing is lost.
    if rng.gen_bool(0.5) {
        mon.count("lost", hub.queue.len() as u64);
        hub.queue.clear();
    }
    for i in 0..n {
        let to = neighbours(&edges, i).into_iter().map(|j| ids[j]).collect();
        hub.connect(i, to).await?;
    }
    // The first two ticks of a node do nothing.
    for _ in 0..3 + n {
        for i in 0..n {
            hub.tick(i).await?;
        }
        hub.pump(rng, 20_000).await?;
    }
    let first = hub.nodes[0].stored();
    for node in &hub.nodes {
        let s = node.stored();
        if s != first {
            return Err((
                "not-converged".into(),
                json!({"stored": first.len(), "other": s.len(), "nodes": n, "limits": format!("{lim:?}"),
                    "missing": first.iter().filter(|(k, _)| !s.contains_key(*k)).map(|(_, e)| format!("{e:?}")).collect::<Vec<_>>(),
                    "more": s.iter().filter(|(k, _)| !first.contains_key(*k)).map(|(_, e)| format!("{e:?}")).collect::<Vec<_>>()}),
            ));
        }
    }
    if let Err(e) = newest(&first, &hub.ever, &lim) {
        return Err((
            "converged-to-wrong-events".into(),
            json!({"why": e, "limits": format!("{lim:?}")}),
        ));
    }
    // And now everything is known
    let (k1, ne) = (hub.kinds.clone(), hub.new_events);
    for i in 0..n {
        hub.tick(i).await?;
    }
    hub.pump(rng, 20_000).await?;
    for k in ["RequestEvents", "Events"] {
        if k1.get(k) != hub.kinds.get(k) {
            return Err((
                "not-quiet".into(),
                json!({"kind": k, "before": k1.get(k), "after": hub.kinds.get(k)}),
            ));
        }
    }
    if hub.new_events != ne {
        return Err((
            "not-quiet".into(),
            json!({"new events": hub.new_events - ne}),
        ));
    }
    mon.count("hops", hub.hops);
    mon.count("new_events", hub.new_events);
    mon.count("oracle_checks", hub.hops + steps as u64);
    mon.nontrivial((n, edges.len(), hub.ever.len(), first.len(), hub.hops));
    mon.sample(json!({"nodes": n, "edges": edges.len(), "events": hub.ever.len(), "kept": first.len(), "messages": format!("{:?}", hub.kinds),
        "lost": lost, "duplicated": dup, "restarts": restarts, "different stores before": differing}));
    Ok(())
}

fn g02(mon: &mut Mon) {
    mon.rule("random graphs of gossiping nodes with loss, duplication, reordering, restarts and hostile messages, then undisturbed rounds; distinct = (nodes, edges, events, kept, hops)");
    mon.require("diverged_before", 20);
    mon.require("hops", 3_000);
    mon.require("new_events", 1_000);
    mon.require("lost", 100);
    mon.require("restarts", 50);
    mon.require("junk_in_storage", 20);
    mon.assume(
        "A connected graph, and rounds in which all messages are delivered, come eventually",
    );
    for i in 0..mon.n(120, 2500) {
        let Some(mut rng) = mon.begin(format!("gossip-{i}")) else {
            continue;
        };
        let rt = rt_current();
        match drive(&rt, 100, g02_case(mon, &mut rng)) {
            Some(Ok(())) => {}
            Some(Err((s, v))) => mon.violation(&s, v),
            None => mon.violation("stuck", json!({})),
        }
        mon.check_panics("gossip");
    }
}

/// How a simulated node reacts when asked to connect
#[derive(Clone, Copy, PartialEq, Debug)]
enum Peer {
    Accepts,
    Refuses,
    Silent,
}

struct RSim {
    me: NodeID,
    net: BrokerNetwork,
    to_net: UnboundedReceiver<NetworkIn>,
    rb: RandomBroker,
    out: UnboundedReceiver<RandomOut>,
    timer: Timer,
    peers: BTreeMap<B, (NodeInfo, Peer)>,
    connected: BTreeSet<B>,
    /// Asked to connect, with the tick of the request
    pending: BTreeMap<B, u64>,
    heard: BTreeSet<B>,
    heard_infos: Vec<NodeInfo>,
    tick: u64,
    todo: Vec<B>,
    last_ids: Option<Vec<NodeID>>,
    last_infos: Option<Vec<NodeInfo>>,
    got: Vec<(NodeID, NetworkWrapper)>,
    sent: Vec<(NodeID, NetworkWrapper)>,
    disconnects: Vec<NodeID>,
    connects: u64,
}

/// Documented in Config: how long a node stays in the connecting-queue.
const CONNECTING_TIMEOUT: u64 = 10;

fn needed(nodes: usize) -> usize {
    match nodes {
        0 | 1 => nodes,
        _ => ((nodes as f64).ln() * 2.).ceil() as usize,
    }
}

impl RSim {
    async fn new(me: NodeID, peers: BTreeMap<B, (NodeInfo, Peer)>) -> Self {
        let mut net: BrokerNetwork = Broker::new();
        let to_net = net.get_tap_in().await.unwrap().0;
        let timer = Timer::simul();
        let mut rb = RandomBroker::start(me, timer.broker.clone(), net.clone())
            .await
            .unwrap();
        let out = rb.broker.get_tap_out().await.unwrap().0;
        Self {
            me,
            net,
            to_net,
            rb,
            out,
            timer,
            peers,
            connected: BTreeSet::new(),
            pending: BTreeMap::new(),
            heard: BTreeSet::new(),
            heard_infos: vec![],
            tick: 0,
            todo: vec![],
            last_ids: None,
            last_infos: None,
            got: vec![],
            sent: vec![],
            disconnects: vec![],
            connects: 0,
        }
    }

    /// Reads all messages and verifies them.
    async fn collect(&mut self) -> Result<(), Bad> {
        self.timer.broker.settle(vec![]).await.unwrap();
        self.rb.broker.settle(vec![]).await.unwrap();
        self.net.settle(vec![]).await.unwrap();
        self.rb.broker.settle(vec![]).await.unwrap();
        while let Ok(m) = self.out.try_recv() {
            match m {
                RandomOut::NodeIDsConnected(ids) => self.last_ids = Some(ids.0),
                RandomOut::NodeInfosConnected(i) => self.last_infos = Some(i),
                RandomOut::NetworkWrapperFromNetwork(src, w) => self.got.push((src, w)),
            }
        }
        while let Ok(m) = self.to_net.try_recv() {
            match m {
                NetworkIn::Connect(id) => {
                    self.connects += 1;
                    let b = bytes(&id);
                    if id == self.me {
                        return Err(("connects-to-itself".into(), json!({})));
                    }
                    if self.connected.contains(&b) {
                        return Err((
                            "connects-to-connected".into(),
                            json!({"id": id.to_string()}),
                        ));
                    }
                    if let Some(t) = self.pending.get(&b) {
                        if t + CONNECTING_TIMEOUT > self.tick {
                            return Err((
                                "connects-twice".into(),
                                json!({"id": id.to_string(), "ticks": self.tick - t}),
                            ));
                        }
                    }
                    if !self.heard.contains(&b) {
                        return Err(("connects-to-unknown".into(), json!({"id": id.to_string()})));
                    }
                    self.pending.insert(b, self.tick);
                    let tick = self.tick;
                    let busy = self.connected.len()
                        + self
                            .pending
                            .values()
                            .filter(|t| **t + CONNECTING_TIMEOUT > tick)
                            .count();
                    if busy > needed(self.heard.len()) {
                        return Err((
                            "too-many-connections".into(),
                            json!({"connected": self.connected.len(), "busy": busy, "heard": self.heard.len()}),
                        ));
                    }
                    self.todo.push(b);
                }
                NetworkIn::Disconnect(id) => {
                    self.disconnects.push(id);
                    self.pending.remove(&bytes(&id));
                }
                NetworkIn::MessageToNode(id, w) => self.sent.push((id, w)),
                _ => {}
            }
        }
        Ok(())
    }

    fn lists(&mut self, when: &str) -> Result<(), Bad> {
        let Some(ids) = self.last_ids.take() else {
            return Err(("no-list".into(), json!({"after": when})));
        };
        let set: BTreeSet<B> = ids.iter().map(bytes).collect();
        if set != self.connected || set.len() != ids.len() {
            return Err((
                "wrong-list".into(),
                json!({"after": when, "listed": ids.len(), "connected": self.connected.len(),
                    "missing": self.connected.iter().filter(|b| !set.contains(*b)).count(),
                    "not connected": set.iter().filter(|b| !self.connected.contains(*b)).count()}),
            ));
        }
        let Some(infos) = self.last_infos.take() else {
            return Err(("no-infos".into(), json!({"after": when})));
        };
        let want: Vec<B> = self
            .heard_infos
            .iter()
            .map(|i| bytes(&i.get_id()))
            .filter(|b| self.connected.contains(b))
            .collect();
        let have: BTreeSet<B> = infos.iter().map(|i| bytes(&i.get_id())).collect();
        if have != want.into_iter().collect() || infos.iter().any(|i| !self.heard_infos.contains(i))
        {
            return Err((
                "wrong-infos".into(),
                json!({"after": when, "have": have.len()}),
            ));
        }
        // Each node once, with what was last heard of it.
        let newest = |i: &NodeInfo| {
            let h = self
                .heard_infos
                .iter()
                .find(|h| h.get_id() == i.get_id())
                .unwrap();
            h.name == i.name && h.modules == i.modules && h.client == i.client
        };
        if have.len() != infos.len() || !infos.iter().all(newest) {
            return Err((
                "old-infos".into(),
                json!({"after": when, "nodes": have.len(), "infos": infos.len(), "old": infos.iter().filter(|i| !newest(i)).count()}),
            ));
        }
        Ok(())
    }

    async fn net(&mut self, m: NetworkOut, when: &str) -> Result<(), Bad> {
        self.last_ids = None;
        self.last_infos = None;
        match &m {
            NetworkOut::Connected(id) => {
                self.connected.insert(bytes(id));
                self.pending.remove(&bytes(id));
                self.heard.insert(bytes(id));
            }
            NetworkOut::Disconnected(id) => {
                self.connected.remove(&bytes(id));
                self.pending.remove(&bytes(id));
            }
            NetworkOut::NodeListFromWS(l) => {
                for i in l.iter().filter(|i| i.get_id() != self.me) {
                    self.heard.insert(bytes(&i.get_id()));
                    self.heard_infos.retain(|h| h != i);
                    self.heard_infos.push(i.clone());
                }
            }
            _ => {}
        }
        let list = matches!(m, NetworkOut::Connected(_) | NetworkOut::Disconnected(_));
        self.net.emit_msg_out(m).unwrap();
        self.collect().await?;
        if list {
            self.lists(when)?;
        }
        Ok(())
    }

    async fn tick(&mut self) -> Result<(), Bad> {
        self.tick += 1;
        self.last_ids = None;
        self.last_infos = None;
        self.timer
            .broker
            .emit_msg_out(TimerMessage::Second)
            .unwrap();
        self.collect().await?;
        self.disconnects.clear();
        self.lists("tick")
    }

    /// The network reacts to one request to connect.
    async fn react(&mut self, p: usize) -> Result<(), Bad> {
        let b = self.todo.swap_remove(p);
        if self.connected.contains(&b) {
            return Ok(());
        }
        match self.peers[&b].1 {
            Peer::Accepts => {
                self.net(NetworkOut::Connected(U256::from(b)), "connected")
                    .await
            }
            Peer::Refuses => {
                self.net(NetworkOut::Disconnected(U256::from(b)), "failed")
                    .await
            }
            Peer::Silent => Ok(()),
        }
    }

    async fn announce(&mut self, rng: &mut StdRng, all: bool) -> Result<(), Bad> {
        // Nodes which restart with another configuration
        for p in self.peers.values_mut() {
            if rng.gen_bool(0.05) {
                p.0.name = rnd_string(rng, 8);
                p.0.modules = *pick(rng, &[Modules::stable(), Modules::all(), Modules::empty()]);
            }
        }
        let mut l: Vec<NodeInfo> = self.peers.values().map(|p| p.0.clone()).collect();
        if !all {
            l.retain(|_| rng.gen_bool(0.5));
        }
        if rng.gen_bool(0.8) {
            l.push(NodeInfo::new_from_id(self.me));
        }
        l.shuffle(rng);
        self.net(NetworkOut::NodeListFromWS(l), "list").await
    }
}

async fn r01_case(mon: &mut Mon, rng: &mut StdRng) -> Result<(), Bad> {
    let me = rnd_id(rng);
    let m = *pick(rng, &[0usize, 1, 2, 3, 5, 10, 20, 40, 60, 100]);
    let (p_silent, p_refuse) = *pick(
        rng,
        &[(0., 0.), (0.3, 0.), (0., 0.4), (0.2, 0.2), (0.6, 0.)],
    );
    let mut peers = BTreeMap::new();
    for _ in 0..m {
        let id = rnd_id(rng);
        let k = match rng.gen::<f64>() {
            x if x < p_silent => Peer::Silent,
            x if x < p_silent + p_refuse => Peer::Refuses,
            _ => Peer::Accepts,
        };
        peers.insert(bytes(&id), (NodeInfo::new_from_id(id), k));
    }
    let mut s = RSim::new(me, peers).await;
    let ids: Vec<B> = s.peers.keys().cloned().collect();
    let mut msgs = 0u64;
    let steps = rng.gen_range(10..150);
    for step in 0..steps {
        let peer = match ids.len() > 0 && rng.gen_bool(0.9) {
            true => U256::from(*pick(rng, &ids)),
            false => rnd_id(rng),
        };
        let on: Vec<B> = s.connected.iter().cloned().collect();
        match rng.gen_range(0..16) {
            0 => s.announce(rng, false).await?,
            1..=3 => s.tick().await?,
            4..=6 if s.todo.len() > 0 => {
                let p = rng.gen_range(0..s.todo.len());
                s.react(p).await?;
            }
            // A connection opened by the other
            7 if !s.connected.contains(&bytes(&peer)) && peer != me => {
                s.net(NetworkOut::Connected(peer), "connected by other")
                    .await?;
                if !s.peers.contains_key(&bytes(&peer)) {
                    s.peers
                        .insert(bytes(&peer), (NodeInfo::new_from_id(peer), Peer::Accepts));
                    mon.count("strangers", 1);
                }
            }
            8 if on.len() > 0 => {
                s.net(
                    NetworkOut::Disconnected(U256::from(*pick(rng, &on))),
                    "disconnected",
                )
                .await?;
                mon.count("disconnected", 1);
            }
            9 | 10 => {
                // A message to a node
                let to = match on.len() > 0 && rng.gen_bool(0.7) {
                    true => U256::from(*pick(rng, &on)),
                    false => peer,
                };
                let len = rng.gen_range(0..40);
                let w = NetworkWrapper {
                    module: pick(rng, &["Gossip", "RandomConnections", "", "x"]).to_string(),
                    msg: format!("{step} {}", rnd_string(rng, len)),
                };
                s.last_ids = None;
                s.last_infos = None;
                s.sent.clear();
                if !s.connected.contains(&bytes(&to)) {
                    // It is no longer waited for.
                    s.pending.remove(&bytes(&to));
                }
                s.rb.broker
                    .emit_msg_in(RandomIn::NetworkWrapperToNetwork(to, w.clone()))
                    .unwrap();
                s.collect().await?;
                msgs += 1;
                if s.connected.contains(&bytes(&to)) {
                    let ok = s.sent.len() == 1
                        && s.sent[0].0 == to
                        && s.sent[0].1.unwrap_yaml::<RandMessage>(NET_MODULE)
                            == Some(RandMessage::Module(w.clone()));
                    if !ok {
                        return Err((
                            "message-not-sent".into(),
                            json!({"msg": format!("{w:?}"), "sent": format!("{:?}", s.sent)}),
                        ));
                    }
                    mon.count("forwarded", 1);
                } else {
                    if s.sent.len() > 0 {
                        return Err(("sent-to-unconnected".into(), json!({})));
                    }
                    s.lists("message to unconnected")?;
                    mon.count("dropped", 1);
                }
            }
            11 | 12 if on.len() > 0 => {
                // A message from a node
                let from = U256::from(*pick(rng, &on));
                let len = rng.gen_range(0..40);
                let w = NetworkWrapper {
                    module: pick(rng, &["Gossip", "Network", ""]).to_string(),
                    msg: rnd_string(rng, len),
                };
                s.got.clear();
                let mut nw =
                    NetworkWrapper::wrap_yaml(NET_MODULE, &RandMessage::Module(w.clone())).unwrap();
                let junk = rng.gen_bool(0.2);
                if junk {
                    match rng.gen_range(0..3) {
                        0 => nw.module.push('x'),
                        1 => nw.msg = rnd_string(rng, 20),
                        _ => nw.msg = "Module: 3".into(),
                    }
                }
                s.net(NetworkOut::MessageFromNode(from, nw), "message")
                    .await?;
                let want = if junk { vec![] } else { vec![(from, w)] };
                if s.got != want {
                    return Err((
                        "message-not-received".into(),
                        json!({"junk": junk, "got": format!("{:?}", s.got)}),
                    ));
                }
                mon.count("received", 1);
            }
            13 if on.len() > 0 => {
                // The other node wants to end it
                let from = U256::from(*pick(rng, &on));
                s.disconnects.clear();
                let nw =
                    NetworkWrapper::wrap_yaml(NET_MODULE, &RandMessage::DropConnection).unwrap();
                s.connected.remove(&bytes(&from));
                s.net(NetworkOut::MessageFromNode(from, nw), "drop").await?;
                if s.disconnects != vec![from] {
                    return Err((
                        "not-dropped".into(),
                        json!({"disconnects": s.disconnects.len()}),
                    ));
                }
                // It may already be trying to connect again
                s.net(NetworkOut::Disconnected(from), "dropped").await?;
                mon.count("dropconnection", 1);
            }
            14 if on.len() > 0 => {
                let id = U256::from(*pick(rng, &on));
                s.disconnects.clear();
                s.connected.remove(&bytes(&id));
                s.rb.broker.emit_msg_in(RandomIn::NodeFailure(id)).unwrap();
                s.collect().await?;
                if s.disconnects != vec![id] {
                    return Err(("failed-not-disconnected".into(), json!({})));
                }
                s.lists("failure")?;
                s.net(NetworkOut::Disconnected(id), "after failure").await?;
                mon.count("failures", 1);
            }
            _ => {}
        }
    }
    // From now on the other nodes stay up, and the list comes regularly
    for t in 0..600 {
        if t % 10 == 0 {
            s.announce(rng, true).await?;
        }
        while s.todo.len() > 0 {
            s.react(0).await?;
        }
        s.tick().await?;
    }
    while s.todo.len() > 0 {
        s.react(0).await?;
    }
    let willing = s.peers.values().filter(|p| p.1 == Peer::Accepts).count();
    let all_willing = willing == s.peers.len();
    let target = match all_willing {
        true => needed(s.peers.len()),
        false => (needed(s.peers.len()) + 1) / 2,
    }
    .min(willing);
    if s.connected.len() < target {
        return Err((
            "not-enough-connections".into(),
            json!({"connected": s.connected.len(), "needed": target, "nodes": s.peers.len(), "willing": willing,
                "silent": s.peers.values().filter(|p| p.1 == Peer::Silent).count()}),
        ));
    }
    // All of those who are connected are used
    mon.count("connects", s.connects);
    mon.count("messages", msgs);
    mon.count("oracle_checks", steps as u64 + 600);
    if !all_willing {
        mon.count("with_unwilling", 1);
    }
    mon.nontrivial((s.peers.len(), willing, s.connects, s.connected.len()));
    mon.sample(json!({"nodes": s.peers.len(), "willing": willing, "requests to connect": s.connects, "connected": s.connected.len()}));
    Ok(())
}

fn r01(mon: &mut Mon) {
    mon.rule("random connections over simulated networks of accepting, refusing and silent nodes; distinct = (nodes, willing, requests, connected)");
    mon.require("connects", 1_000);
    mon.require("forwarded", 100);
    mon.require("dropped", 50);
    mon.require("received", 100);
    mon.require("with_unwilling", 30);
    mon.require("dropconnection", 30);
    mon.require("chosen", 1_000);
    mon.require("chosen_with_many", 100);
    mon.assume("The signalling server sends its list regularly");
    for i in 0..mon.n(150, 4000) {
        let Some(mut rng) = mon.begin(format!("random-{i}")) else {
            continue;
        };
        let rt = rt_current();
        match drive(&rt, 100, r01_case(mon, &mut rng)) {
            Some(Ok(())) => {}
            Some(Err((s, v))) => mon.violation(&s, v),
            None => mon.violation("stuck", json!({})),
        }
        mon.check_panics("random");
    }
}

/// The choice of the nodes to connect to, with many nodes in all states.
fn r01_stats(mon: &mut Mon) {
    for i in 0..mon.n(200, 4000) {
        let Some(mut rng) = mon.begin(format!("stats-{i}")) else {
            continue;
        };
        let rng = &mut rng;
        let max = *pick(rng, &[1, 5, 20, 100]);
        let pool: Vec<NodeID> = (0..max).map(|_| rnd_id(rng)).collect();
        let mut s = RandomStats::new();
        let (mut known, mut on, mut trying): (BTreeSet<B>, BTreeSet<B>, BTreeSet<B>) =
            Default::default();
        for step in 0..rng.gen_range(5..60) {
            let k = rng.gen_range(0..=pool.len().min(12));
            let some: Vec<NodeID> = pool.choose_multiple(rng, k).cloned().collect();
            let set: Vec<B> = some.iter().map(bytes).collect();
            let ids = NodeIDs(some);
            let op = rng.gen_range(0..10);
            let mut chosen = None;
            match op {
                0 | 1 => {
                    s.new_list(ids);
                    known.extend(set);
                }
                2 => {
                    s.new_infos(ids.0.iter().map(|i| NodeInfo::new_from_id(*i)).collect());
                    known.extend(set);
                }
                3 => {
                    s.connect(ids);
                    trying.retain(|t| !set.contains(t));
                    known.extend(set.clone());
                    on.extend(set);
                }
                4 => {
                    let l = NodeIDs(ids.0.into_iter().take(2).collect());
                    let gone: Vec<B> = l.0.iter().map(bytes).collect();
                    match rng.gen() {
                        true => s.disconnect(l),
                        false => s.failure(&l),
                    }
                    for x in [&mut known, &mut on, &mut trying] {
                        x.retain(|t| !gone.contains(t));
                    }
                }
                5 => s.tick(),
                6 | 7 => chosen = Some((s.choose_new(k), k, k)),
                _ => {
                    let half = (s.nodes_needed() + 1) / 2;
                    let most = half.saturating_sub(on.len() + trying.len());
                    chosen = Some((s.fill_up(), most.min(1), most));
                }
            }
            let mut bad = None;
            if let Some((c, least, most)) = chosen {
                mon.count("chosen", c.0.len() as u64);
                let free: BTreeSet<B> = known
                    .iter()
                    .filter(|k| !on.contains(*k) && !trying.contains(*k))
                    .cloned()
                    .collect();
                let new: BTreeSet<B> = c.0.iter().map(bytes).collect();
                if new.len() != c.0.len() || !new.is_subset(&free) {
                    bad = Some("chosen-twice-or-not-free");
                } else if new.len() < least.min(free.len()) || new.len() > most {
                    bad = Some("wrong-number-chosen");
                }
                if trying.len() + on.len() > 4 && new.len() > 0 {
                    mon.count("chosen_with_many", 1);
                }
                trying.extend(new);
            }
            let is = |n: &NodeIDs| n.0.iter().map(bytes).collect::<Vec<B>>();
            for (what, have, want) in [
                ("known", is(&s.known), &known),
                ("connected", is(&s.connected.get_nodes()), &on),
                ("connecting", is(&s.connecting.get_nodes()), &trying),
            ] {
                let as_set: BTreeSet<B> = have.iter().cloned().collect();
                if as_set.len() != have.len() || as_set != *want {
                    mon.count(what, 1);
                    bad = bad.or(Some("wrong-states"));
                }
            }
            if let Some(b) = bad {
                mon.violation(
                    b,
                    json!({"step": step, "op": op, "known": known.len(), "connected": on.len(), "connecting": trying.len()}),
                );
                break;
            }
        }
        mon.nontrivial((i, known.len(), on.len(), trying.len()));
        mon.check_panics("stats");
    }
}

/// The lists of nodes with their ages, against a plain list.
fn r01_lists(mon: &mut Mon) {
    for i in 0..mon.n(200, 4000) {
        let Some(mut rng) = mon.begin(format!("lists-{i}")) else {
            continue;
        };
        let rng = &mut rng;
        let pool: Vec<NodeID> = (0..rng.gen_range(1..12)).map(|_| rnd_id(rng)).collect();
        let mut n = Nodes::new();
        let mut m: Vec<(NodeID, u32)> = vec![];
        let mut ops = vec![];
        for _ in 0..rng.gen_range(5..60) {
            let some: Vec<NodeID> = {
                let k = rng.gen_range(0..4);
                pool.choose_multiple(rng, k).cloned().collect()
            };
            let k = rng.gen_range(0..6usize);
            let op = *pick(
                rng,
                &[
                    0, 0, 0, 0, 1, 3, 3, 3, 3, 4, 5, 6, 6, 7, 7, 7, 8, 9, 10, 10, 10,
                ],
            );
            let k = match op {
                6 | 7 => k / 3,
                8 | 9 => k * 2,
                _ => k,
            };
            let ids = |v: &[(NodeID, u32)]| v.iter().map(|x| bytes(&x.0)).collect::<BTreeSet<B>>();
            let set = |v: &NodeIDs| v.0.iter().map(bytes).collect::<BTreeSet<B>>();
            // The ages removed must be the extreme ones; which of the same age is open.
            let mut bad = None;
            let removed = |ret: NodeIDs,
                           m: &mut Vec<(NodeID, u32)>,
                           cnt: usize,
                           oldest: bool|
             -> Option<String> {
                let mut bad = None;
                m.sort_by_key(|x| x.1);
                if oldest {
                    m.reverse();
                }
                let cnt = cnt.min(m.len());
                let want: Vec<u32> = m[..cnt].iter().map(|x| x.1).collect();
                let mut have: Vec<u32> = ret
                    .0
                    .iter()
                    .filter_map(|r| m.iter().find(|x| x.0 == *r).map(|x| x.1))
                    .collect();
                have.sort();
                if oldest {
                    have.reverse();
                }
                if want != have || ret.0.len() != cnt {
                    bad = Some(format!("removed {have:?} instead of {want:?}"));
                }
                m.retain(|x| !ret.0.contains(&x.0));
                bad
            };
            match op {
                0..=2 => {
                    n.add_new(some.clone());
                    for s in &some {
                        if !m.iter().any(|x| x.0 == *s) {
                            m.push((*s, 0));
                        }
                    }
                }
                3 => {
                    n.tick();
                    m.iter_mut().for_each(|x| x.1 += 1);
                }
                4 => {
                    n.remove(&some.clone().into());
                    m.retain(|x| !some.contains(&x.0));
                }
                5 => {
                    let ret = n.remove_missing(&some.clone().into());
                    let gone = m
                        .iter()
                        .filter(|x| !some.contains(&x.0))
                        .cloned()
                        .collect::<Vec<_>>();
                    if set(&ret) != ids(&gone) {
                        bad = Some("remove_missing".into());
                    }
                    m.retain(|x| some.contains(&x.0));
                }
                6 => {
                    let ret = n.remove_oldest_n(k);
                    bad = bad.or(removed(ret, &mut m, k, true));
                }
                7 => {
                    let ret = n.remove_newest_n(k);
                    bad = bad.or(removed(ret, &mut m, k, false));
                }
                8 => {
                    let c = m.len().saturating_sub(k);
                    let ret = n.keep_newest_n(k);
                    bad = bad.or(removed(ret, &mut m, c, true));
                }
                9 => {
                    let c = m.len().saturating_sub(k);
                    let ret = n.keep_oldest_n(k);
                    bad = bad.or(removed(ret, &mut m, c, false));
                }
                _ => {
                    let c = m.iter().filter(|x| x.1 >= k as u32).count();
                    if n.count_expired(k as u32) != c || n.oldest_ticks(k as u32).0.len() != c {
                        bad = Some("expired".into());
                    }
                    let ret = n.remove_oldest_ticks(k as u32);
                    bad = bad.or(removed(ret, &mut m, c, true));
                }
            }
            ops.push((op, k));
            let have: BTreeSet<(B, u32)> =
                n.0.iter()
                    .map(|NodeTime { id, ticks }| (bytes(id), *ticks))
                    .collect();
            let want: BTreeSet<(B, u32)> = m.iter().map(|x| (bytes(&x.0), x.1)).collect();
            if bad.is_none() && (have != want || n.0.len() != m.len()) {
                bad = Some(format!(
                    "have {} nodes instead of {}, or others",
                    n.0.len(),
                    m.len()
                ));
            }
            if bad.is_none()
                && (n.get_nodes().0.len() != m.len()
                    || pool
                        .iter()
                        .any(|p| n.contains(p) != m.iter().any(|x| x.0 == *p)))
            {
                bad = Some("contains".into());
            }
            if let Some(why) = bad {
                mon.violation(
                    "list-of-nodes",
                    json!({"why": why, "ops": format!("{ops:?}")}),
                );
                break;
            }
            mon.count("list_operations", 1);
        }
        mon.nontrivial(("list", ops));
        mon.check_panics("lists");
    }
}

fn main() {
    main_with(|mon, id| match id {
        "G01" => g01(mon),
        "G02" => g02(mon),
        "R01" => {
            r01_lists(mon);
            r01_stats(mon);
            r01(mon);
        }
        _ => panic!("unknown property {id}"),
    });
}
