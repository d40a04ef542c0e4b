//! D01..D06: storage of Flos on a node, its persistence, and synchronisation between nodes.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use bytes::Bytes;
use flarch::{
    broker::Broker,
    data_storage::{DataStorage, DataStorageTemp, StorageError},
    nodeids::{NodeID, U256},
};
use flcrypto::{
    access::{Condition, ConditionLink, VersionSpec},
    signer::{Signer, SignerTrait, VerifierTrait},
    signer_ed25519::SignerEd25519,
    tofrombytes::ToFromBytes,
};
use flmodules::{
    dht_router::{
        broker::{BrokerDHTRouter, DHTRouter, DHTRouterIn, DHTRouterOut},
        kademlia,
    },
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn, DHTStorageOut},
        core::{Cuckoo, DHTConfig, FloConfig, FloMeta, RealmConfig, RealmStorage},
        intern::{MessageClosest, MessageDest, MessageNeighbour},
    },
    flo::{
        crypto::{BadgeCond, FloBadge, FloVerifier},
        flo::{Flo, FloID, FloWrapper},
        realm::{FloRealm, GlobalID, Realm, RealmID},
    },
    router::messages::NetworkWrapper,
    testing::network_simul::NetworkSimul,
    timer::{Timer, TimerMessage},
};
use mon::{
    bounded, drive, main_with, rt_current, take_panics,
    util::{pick, rnd_bytes, rnd_string},
    Bounded, Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::json;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTStorage";

type Bad = (String, serde_json::Value);

fn rnd_id(rng: &mut StdRng) -> U256 {
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    U256::from(a)
}

/// Length of the common prefix in bits, 255 for identical ids.
fn depth(a: &[u8], b: &[u8]) -> usize {
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x != 0 {
            return i * 8 + x.leading_zeros() as usize;
        }
    }
    255
}

fn depth_flo(node: &NodeID, f: &FloID) -> usize {
    depth(node.as_ref(), f.as_ref())
}

fn data(rng: &mut StdRng, len: usize) -> Bytes {
    rnd_bytes(rng, len).into()
}

fn mk_flo(rng: &mut StdRng, rid: &RealmID, len: usize, cuckoo: Cuckoo) -> Flo {
    Flo::new_signer(
        rid.clone(),
        Condition::Pass,
        &data(rng, len),
        FloConfig {
            cuckoo,
            force_id: None,
        },
        &[],
    )
    .unwrap()
}

/// A Flo of which the size only depends on the length.
fn sized_flo(rid: &RealmID, len: usize) -> Flo {
    Flo::new_signer(
        rid.clone(),
        Condition::Pass,
        &Bytes::from(vec![7u8; len]),
        FloConfig {
            cuckoo: Cuckoo::None,
            // To get a different ID for every Flo.
            force_id: Some(U256::rnd()),
        },
        &[],
    )
    .unwrap()
}

fn upd(rng: &mut StdRng, f: &Flo, len: usize) -> Flo {
    f.update_data_signers(Condition::Pass, data(rng, len), &[])
        .unwrap()
}

fn mk_realm(rng: &mut StdRng, name_len: usize, max_space: u64) -> FloRealm {
    let name: String = (0..name_len).map(|_| rng.gen_range('a'..='z')).collect();
    FloRealm::new(
        &name,
        Condition::Pass,
        RealmConfig {
            max_space,
            max_flo_size: 1_000_000,
        },
        &[],
    )
    .unwrap()
}

// ---------------------------------------------------------------- D01
struct Units {
    cfg: DHTConfig,
    base: FloRealm,
    cache: HashMap<(FloID, u32, U256, usize), u64>,
}

impl Units {
    /// How much one Flo with its cuckoo-ids takes, measured in an empty storage.
    fn get(&mut self, f: &Flo, cuckoos: &[FloID]) -> u64 {
        let key = (
            f.flo_id(),
            f.version(),
            U256::hash_data(f.data()),
            cuckoos.len(),
        );
        if let Some(u) = self.cache.get(&key) {
            return *u;
        }
        let mut s = RealmStorage::new(self.cfg.clone(), self.base.clone()).unwrap();
        let before = s.size;
        s.upsert_flo(f.clone());
        s.store_cuckoo_ids(&f.flo_id(), cuckoos.to_vec());
        let u = s.size - before;
        self.cache.insert(key, u);
        u
    }
}

fn d01_history(mut rng: StdRng, nops: usize) -> (Vec<Bad>, BTreeMap<&'static str, u64>, u64) {
    let mut bad: Vec<Bad> = vec![];
    let mut ev: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fp = 0u64;
    let max_space = *pick(&mut rng, &[0u64, 300, 700, 1500, 4000, 10_000, 40_000]);
    let name_len = *pick(&mut rng, &[4usize, 4, 20, 400, 1000]);
    // Flos of a few exact sizes, and a space which they fill to the last byte.
    let exact = rng.gen_bool(0.4);
    let pure = rng.gen_bool(0.5);
    let sizes: &[usize] = if rng.gen_bool(0.5) { &[40] } else { &[40, 90] };
    let mut realm = mk_realm(&mut rng, name_len, max_space);
    let mut max_space = max_space;
    if exact {
        let mut u = Units {
            cfg: DHTConfig::default(NodeID::rnd()),
            base: mk_realm(&mut rng, 3, 1 << 40),
            cache: HashMap::new(),
        };
        let rid = realm.realm_id();
        let flos = u.get(&sized_flo(&rid, 40), &[]) * rng.gen_range(2..7)
            + u.get(&sized_flo(&rid, 90), &[]) * rng.gen_range(0..4);
        // The space itself is written in the realm's Flo.
        for _ in 0..3 {
            max_space = flos + RealmStorage::new(u.cfg.clone(), realm.clone()).unwrap().size;
            realm = mk_realm(&mut rng, name_len, max_space);
        }
    }
    let rid = realm.realm_id();
    // Flos very close to the node, others only by chance.
    let mut close: Option<Flo> = None;
    let node = if rng.gen_bool(0.5) {
        let f = if exact { sized_flo(&rid, 40) } else { mk_flo(&mut rng, &rid, 40, Cuckoo::None) };
        let near = if rng.gen_bool(0.2) { realm.flo_id() } else { f.flo_id() };
        close = Some(f);
        let mut id = near.to_bytes();
        let d: usize = *pick(&mut rng, &[8usize, 9, 10, 11, 12, 19, 20, 63, 100, 101, 254]);
        id[d / 8] ^= 0x80 >> (d % 8);
        NodeID::from(U256::from(id))
    } else {
        NodeID::from(rnd_id(&mut rng))
    };
    let cfg = DHTConfig::default(node);
    let realm_fid = realm.flo_id();
    let mut st = RealmStorage::new(cfg.clone(), realm.clone()).unwrap();
    let mut units = Units {
        cfg,
        base: mk_realm(&mut rng, 3, 1 << 40),
        cache: HashMap::new(),
    };
    let mut known: Vec<Flo> = vec![realm.flo().clone()];
    type Snap = BTreeMap<String, (Flo, Vec<FloID>)>;
    let snap = |st: &RealmStorage| -> Snap {
        st.get_all_flo_cuckoos()
            .into_iter()
            .map(|(f, c)| (format!("{:?}", f.flo_id().to_bytes()), (f, c)))
            .collect()
    };
    let key = |f: &FloID| format!("{:?}", f.to_bytes());
    for i in 0..nops {
        let before = snap(&st);
        let free = max_space.saturating_sub(st.size);
        let op = rng.gen_range(0..if exact && pure { 55 } else { 100 });
        let mut inserted: Option<Flo> = None;
        if op < 50 || known.len() < 3 {
            let len = match rng.gen_range(0..5) {
                0 => rng.gen_range(0..20),
                1 | 2 => rng.gen_range(0..200),
                3 => rng.gen_range(0..(max_space as usize / 3).max(2)),
                _ => rng.gen_range(0..(max_space as usize / 8).max(2)),
            };
            let cuckoo = if rng.gen_bool(0.3) {
                Cuckoo::Parent(pick(&mut rng, &known).flo_id())
            } else {
                Cuckoo::None
            };
            let f = if close.is_some() && rng.gen_bool(0.2) {
                close.take().unwrap()
            } else if exact && (pure || rng.gen_bool(0.9)) {
                sized_flo(&rid, *pick(&mut rng, sizes))
            } else {
                mk_flo(&mut rng, &rid, len, cuckoo)
            };
            known.push(f.clone());
            st.upsert_flo(f.clone());
            inserted = Some(f);
        } else if op < 65 {
            let k = rng.gen_range(0..known.len());
            let f = if known[k].flo_id() == realm_fid {
                // The same space, but a new version
                *ev.entry("realm_updates").or_default() += 1;
                known[k]
                    .update_data_signers(Condition::Pass, known[k].data().clone(), &[])
                    .unwrap()
            } else {
                let len = rng.gen_range(0..(max_space as usize / 4).max(200));
                upd(&mut rng, &known[k], len)
            };
            known[k] = f.clone();
            st.upsert_flo(f.clone());
            inserted = Some(f);
        } else if op < 75 {
            let f = pick(&mut rng, &known).clone();
            st.upsert_flo(f.clone());
            inserted = Some(f);
        } else {
            let p = if rng.gen_bool(0.3) {
                realm_fid.clone()
            } else {
                pick(&mut rng, &known).flo_id()
            };
            let n = rng.gen_range(1..5);
            let ids = (0..n)
                .map(|_| FloID::from(rnd_id(&mut rng)))
                .collect::<Vec<_>>();
            st.store_cuckoo_ids(&p, ids);
        }
        let after = snap(&st);
        fp = mon::hash64(&(fp, after.len(), st.size));
        *ev.entry("operations").or_default() += 1;

        let ctx = |what: &str| {
            json!({"op": i, "what": what, "max_space": max_space, "size": st.size,
            "flos": after.len(), "before": before.len()})
        };
        // Accounting
        let sum: u64 = after.values().map(|(f, c)| units.get(f, c)).sum();
        if sum != st.size {
            bad.push((
                "size-accounting".into(),
                json!({"op": i, "reported": st.size, "sum_of_contents": sum}),
            ));
        }
        if st.size > max_space && after.len() > 1 {
            bad.push(("space-exceeded".into(), ctx("more than the realm Flo stored")));
        }
        if !after.contains_key(&key(&realm_fid)) {
            bad.push(("realm-flo-evicted".into(), ctx("")));
        }
        let dist: usize = st.flo_distribution().iter().sum();
        if dist != after.len()
            || st.flo_count() != after.len()
            || st.get_flo_metas().len() != after.len()
        {
            bad.push((
                "inconsistent-index".into(),
                json!({"op": i, "distribution": dist, "count": st.flo_count(), "flos": after.len(),
                    "metas": st.get_flo_metas().len()}),
            ));
        }
        for (f, c) in after.values() {
            if st.get_flo_cuckoo(&f.flo_id()) != Some((f.clone(), c.clone()))
                || st.get_cuckoo_ids(&f.flo_id()).as_ref() != Some(c)
            {
                bad.push(("lookup-differs".into(), ctx("")));
            }
        }
        // Evictions
        let mut evicted: Vec<(usize, u64)> = vec![];
        let mut gone = |f: &Flo, c: &[FloID], units: &mut Units| {
            evicted.push((depth_flo(&node, &f.flo_id()), units.get(f, c)));
        };
        for (k, (f, c)) in &before {
            if !after.contains_key(k) {
                gone(f, c, &mut units);
                *ev.entry("evictions").or_default() += 1;
            }
        }
        if let Some(f) = &inserted {
            let k = key(&f.flo_id());
            let unit = units.get(f, &[]);
            let fresh = !before.contains_key(&k);
            let too_big = f.size() as u64 * 3 > max_space;
            // A cuckoo stores its id in the parent first, which takes some of the space.
            let slack = if f.flo_config().cuckoo == Cuckoo::None { 0 } else { 80 };
            let lower: u64 = before
                .values()
                .filter(|(b, _)| {
                    b.flo_id() != realm_fid
                        && depth_flo(&node, &b.flo_id()) < depth_flo(&node, &f.flo_id())
                })
                .map(|(b, c)| units.get(b, c))
                .sum();
            if fresh && slack == 0 && lower == unit && unit > free {
                *ev.entry("just_about").or_default() += 1;
            }
            if fresh && !after.contains_key(&k) {
                *ev.entry("refused").or_default() += 1;
                if !too_big && unit + slack <= free {
                    bad.push(("fitting-flo-refused".into(), ctx("there was enough space")));
                } else if !too_big && lower >= unit + slack && st.size + unit + slack <= max_space {
                    bad.push(("closer-flo-refused".into(), ctx("farther Flos could be evicted")));
                } else if !too_big && evicted.is_empty() && lower >= unit + slack {
                    bad.push(("closer-flo-refused".into(), ctx("farther Flos were kept")));
                } else if slack == 0 && evicted.len() > 0 {
                    bad.push(("needless-eviction".into(), ctx("and the new Flo is not stored")));
                }
            } else if fresh {
                *ev.entry("stored").or_default() += 1;
                if slack == 0 && unit == free {
                    *ev.entry("filled_to_the_last_byte").or_default() += 1;
                }
                if !too_big && unit + slack <= free && evicted.len() > 0 {
                    bad.push(("needless-eviction".into(), ctx("everything fits")));
                }
            }
        }
        if let Some(maxd) = evicted.iter().map(|e| e.0).max() {
            if after
                .values()
                .any(|(f, _)| {
                    f.flo_id() != realm_fid
                        && depth_flo(&node, &f.flo_id()) < maxd
                        // Linking a cuckoo to its parent comes first, and can evict.
                        && inserted.as_ref().map(|i| i.flo_id()) != Some(f.flo_id())
                })
            {
                bad.push(("wrong-eviction-order".into(), ctx("a farther Flo was kept")));
            }
            // An update can be evicted itself, because of its new size,
            let mut biggest = evicted.iter().map(|e| e.1).max().unwrap();
            if let Some(f) = &inserted {
                biggest = biggest.max(units.get(f, &[]));
                // ... or it shrinks after its link to the parent evicted another one.
                if let Some((old, c)) = before.get(&key(&f.flo_id())) {
                    biggest = biggest.max(units.get(f, c)).max(units.get(old, c));
                }
            }
            if st.size + biggest + 300 <= max_space {
                bad.push(("needless-eviction".into(), ctx("too many evicted")));
            }
        }
        if bad.len() > 0 {
            break;
        }
    }
    (bad, ev, fp)
}

fn d01(mon: &mut Mon) {
    mon.rule("random histories of inserts, updates, cuckoo links into realms of different sizes; distinct = sequence of (Flos, size) after every operation");
    mon.require("evictions", 200);
    mon.require("refused", 50);
    mon.require("stored", 500);
    mon.require("filled_to_the_last_byte", 10);
    mon.require("just_about", 10);
    mon.require("realm_updates", 50);
    for i in 0..mon.n(300, 6000) {
        let Some(mut rng) = mon.begin(format!("history{i}")) else {
            continue;
        };
        let n = rng.gen_range(20..80);
        match bounded(20., move || d01_history(rng, n)) {
            Bounded::Done((bad, ev, fp)) => {
                mon.nontrivial(fp);
                for (k, v) in ev {
                    mon.count(k, v);
                }
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
                mon.count("oracle_checks", 7 * n as u64);
            }
            Bounded::Panicked => mon.check_panics("storage"),
            Bounded::Stuck(s) => mon.violation("operation-stuck", json!({"how": s})),
        }
        mon.check_panics("storage");
    }
}

// ---------------------------------------------------------------- a node with a fake router
/// A storage which keeps every value ever written.
#[derive(Clone)]
struct Recorder {
    kv: Arc<Mutex<HashMap<String, String>>>,
    log: Arc<Mutex<Vec<(String, String)>>>,
    unreadable: Arc<Mutex<bool>>,
}
impl Recorder {
    fn new() -> Self {
        Self {
            kv: Arc::new(Mutex::new(HashMap::new())),
            log: Arc::new(Mutex::new(vec![])),
            unreadable: Arc::new(Mutex::new(false)),
        }
    }
}
impl DataStorage for Recorder {
    fn get(&self, key: &str) -> Result<String, StorageError> {
        if *self.unreadable.lock().unwrap() {
            return Err(StorageError::Underlying("too many open files".into()));
        }
        Ok(self.kv.lock().unwrap().get(key).cloned().unwrap_or_default())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
        self.kv.lock().unwrap().insert(key.into(), value.into());
        self.log.lock().unwrap().push((key.into(), value.into()));
        Ok(())
    }
    fn remove(&mut self, key: &str) -> Result<(), StorageError> {
        self.kv.lock().unwrap().remove(key);
        Ok(())
    }
    fn clone_box(&self) -> Box<dyn DataStorage + Send> {
        Box::new(self.clone())
    }
}

type B = [u8; 32];
type State = BTreeMap<(B, B), (Flo, BTreeSet<B>)>;

struct Node {
    id: NodeID,
    ds: DHTStorage,
    router: BrokerDHTRouter,
    to_router: UnboundedReceiver<DHTRouterIn>,
    out: UnboundedReceiver<DHTStorageOut>,
}

impl Node {
    async fn new(id: NodeID, realms: Vec<RealmID>, storage: Box<dyn DataStorage + Send>) -> Self {
        let mut router: BrokerDHTRouter = Broker::new();
        let to_router = router.get_tap_in().await.unwrap().0;
        let mut cfg = DHTConfig::default(id);
        cfg.realms = realms;
        let mut ds = DHTStorage::start(storage, cfg, Timer::simul().broker, router.clone())
            .await
            .unwrap();
        let out = ds.broker.get_tap_out().await.unwrap().0;
        Self {
            id,
            ds,
            router,
            to_router,
            out,
        }
    }

    fn local(&mut self, msg: DHTStorageIn) {
        self.ds.broker.emit_msg_in(msg).unwrap();
    }

    fn from_router(&mut self, msg: DHTRouterOut) {
        self.router.emit_msg_out(msg).unwrap();
    }

    /// Waits until everything sent so far has been handled; returns what the node sent to
    /// its user and to the network in the meantime.
    async fn sync(&mut self) -> (Vec<DHTStorageOut>, Vec<DHTRouterIn>) {
        // Local messages and messages from the router enter by different ways: flush the
        // router's first.
        self.router.settle(vec![]).await.unwrap();
        self.local(DHTStorageIn::GetRealms);
        let mut outs = vec![];
        loop {
            match tokio::time::timeout(Duration::from_secs(30), self.out.recv()).await {
                Ok(Some(DHTStorageOut::RealmIDs(_))) => break,
                Ok(Some(m)) => outs.push(m),
                _ => panic!("no answer from the storage"),
            }
        }
        self.router.settle(vec![]).await.unwrap();
        let mut nets = vec![];
        while let Ok(m) = self.to_router.try_recv() {
            nets.push(m);
        }
        (outs, nets)
    }

    async fn realms(&mut self) -> Vec<RealmID> {
        self.router.settle(vec![]).await.unwrap();
        self.local(DHTStorageIn::GetRealms);
        loop {
            match tokio::time::timeout(Duration::from_secs(30), self.out.recv()).await {
                Ok(Some(DHTStorageOut::RealmIDs(r))) => return r,
                Ok(Some(_)) => {}
                _ => panic!("no answer from the storage"),
            }
        }
    }

    /// Everything stored: (realm, id) -> (Flo, cuckoo-ids)
    async fn state(&mut self) -> State {
        self.router.settle(vec![]).await.unwrap();
        self.local(DHTStorageIn::GetFlos);
        loop {
            match tokio::time::timeout(Duration::from_secs(30), self.out.recv()).await {
                Ok(Some(DHTStorageOut::FloValues(v))) => {
                    return v
                        .into_iter()
                        .map(|(f, c)| {
                            (
                                (f.realm_id().to_bytes(), f.flo_id().to_bytes()),
                                (f, c.iter().map(|c| c.to_bytes()).collect()),
                            )
                        })
                        .collect()
                }
                Ok(Some(_)) => {}
                _ => panic!("no answer from the storage"),
            }
        }
    }
}

fn wrap<T: serde::Serialize>(m: &T) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, m).unwrap()
}

/// All the ways by which a Flo can come to a node.
fn deliver(rng: &mut StdRng, node: &mut Node, f: &Flo, cuckoos: Vec<FloID>) -> &'static str {
    let (o, l, h): (NodeID, NodeID, NodeID) = (
        rnd_id(rng).into(),
        rnd_id(rng).into(),
        rnd_id(rng).into(),
    );
    let key: U256 = f.flo_id().into();
    match rng.gen_range(0..5) {
        _ if cuckoos.len() > 0 => {
            if rng.gen_bool(0.5) {
                node.from_router(DHTRouterOut::MessageDest(
                    o,
                    l,
                    wrap(&MessageDest::FloValue((f.clone(), cuckoos))),
                ));
                "dest"
            } else {
                node.from_router(DHTRouterOut::MessageNeighbour(
                    o,
                    wrap(&MessageNeighbour::Flos(vec![(f.clone(), cuckoos)])),
                ));
                "neighbour"
            }
        }
        0 => {
            node.local(DHTStorageIn::StoreFlo(f.clone()));
            "local"
        }
        1 => {
            node.from_router(DHTRouterOut::MessageRouting(
                o,
                l,
                h,
                key,
                wrap(&MessageClosest::StoreFlo(f.clone())),
            ));
            "routing"
        }
        2 => {
            node.from_router(DHTRouterOut::MessageClosest(
                o,
                l,
                key,
                wrap(&MessageClosest::StoreFlo(f.clone())),
            ));
            "closest"
        }
        3 => {
            node.from_router(DHTRouterOut::MessageDest(
                o,
                l,
                wrap(&MessageDest::FloValue((f.clone(), vec![]))),
            ));
            "dest"
        }
        _ => {
            node.from_router(DHTRouterOut::MessageNeighbour(
                o,
                wrap(&MessageNeighbour::Flos(vec![(f.clone(), vec![])])),
            ));
            "neighbour"
        }
    }
}

// ---------------------------------------------------------------- D02
struct Model {
    // flo id -> (flo, cuckoos)
    flos: HashMap<FloID, (Flo, Vec<FloID>)>,
}
impl Model {
    fn link(&mut self, parent: &FloID, c: &FloID) {
        if let Some((_, cs)) = self.flos.get_mut(parent) {
            if !cs.contains(c) {
                cs.push(c.clone());
            }
        }
    }
    fn store(&mut self, f: &Flo, cuckoos: &[FloID]) {
        if let Cuckoo::Parent(p) = &f.flo_config().cuckoo {
            self.link(p, &f.flo_id());
        }
        let id = f.flo_id();
        match self.flos.get_mut(&id) {
            Some((old, _)) => {
                if f.version() > old.version() {
                    *old = f.clone();
                }
            }
            None => {
                self.flos.insert(id.clone(), (f.clone(), vec![]));
            }
        }
        for c in cuckoos {
            self.link(&id, c);
        }
    }
    fn state(&self) -> State {
        self.flos
            .values()
            .map(|(f, c)| {
                (
                    (f.realm_id().to_bytes(), f.flo_id().to_bytes()),
                    (f.clone(), c.iter().map(|c| c.to_bytes()).collect()),
                )
            })
            .collect()
    }
}

fn diff(got: &State, want: &State) -> Option<(String, serde_json::Value)> {
    for (k, (f, c)) in want {
        match got.get(k) {
            None => return Some(("flo-lost".into(), json!({"flo": format!("{}", f.flo_id()), "version": f.version()}))),
            Some((g, gc)) => {
                if g.version() != f.version() {
                    return Some((
                        if g.version() < f.version() { "version-regressed" } else { "version-unexpected" }.into(),
                        json!({"flo": format!("{}", f.flo_id()), "want": f.version(), "got": g.version()}),
                    ));
                }
                if g != f {
                    return Some(("content-differs".into(), json!({"flo": format!("{}", f.flo_id()), "version": f.version()})));
                }
                if gc != c {
                    return Some((
                        if c.is_subset(gc) { "cuckoos-added" } else { "cuckoos-lost" }.into(),
                        json!({"flo": format!("{}", f.flo_id()), "want": c.len(), "got": gc.len()}),
                    ));
                }
            }
        }
    }
    for (k, (f, _)) in got {
        if !want.contains_key(k) {
            return Some(("unknown-flo".into(), json!({"flo": format!("{}", f.flo_id())})));
        }
    }
    None
}

fn d02(mon: &mut Mon) {
    mon.rule("Flo versions delivered in random order by all routes; distinct = (routes, final versions, cuckoo counts)");
    mon.require("deliveries", 1000);
    mon.require("older_version_ignored", 100);
    mon.require("forks_ignored", 50);
    mon.require("metas_checked", 300);
    mon.require("bulk_deliveries", 20);
    mon.require("other_condition", 20);
    let rt = rt_current();
    for i in 0..mon.n(60, 2000) {
        let Some(mut rng) = mon.begin(format!("versions{i}")) else {
            continue;
        };
        let r = drive(&rt, 120, async {
            let mut bad: Vec<Bad> = vec![];
            let mut fp = 0u64;
            let mut evs: Vec<(&'static str, u64)> = vec![];
            let realm = mk_realm(&mut rng, 5, 10_000_000);
            let rid = realm.realm_id();
            let id: NodeID = rnd_id(&mut rng).into();
            let mut node = Node::new(id, vec![], Box::new(DataStorageTemp::new())).await;
            let mut model = Model {
                flos: HashMap::new(),
            };
            node.local(DHTStorageIn::StoreFlo(realm.flo().clone()));
            model.store(realm.flo(), &[]);
            let _ = node.sync().await;
            // Histories of Flos, with forks: same version, other content.
            let mut pool: Vec<Flo> = vec![];
            let mut ids: Vec<FloID> = vec![];
            for _ in 0..rng.gen_range(2..5) {
                let cuckoo = match rng.gen_range(0..3) {
                    0 if ids.len() > 0 => Cuckoo::Parent(pick(&mut rng, &ids).clone()),
                    1 => Cuckoo::Duration(1000),
                    _ => Cuckoo::None,
                };
                let mut f = mk_flo(&mut rng, &rid, 20, cuckoo);
                ids.push(f.flo_id());
                pool.push(f.clone());
                for _ in 0..rng.gen_range(0..5) {
                    let len = rng.gen_range(0..100);
                    let n = upd(&mut rng, &f, len);
                    if rng.gen_bool(0.3) {
                        let fork = upd(&mut rng, &f, len + 1);
                        pool.push(fork);
                    }
                    if rng.gen_bool(0.3) {
                        // Other owners, but the same data: older than the next version.
                        let other = Condition::NofT(0, vec![]);
                        pool.push(f.update_cond_signers(Condition::Pass, other, &[], &[]).unwrap());
                    }
                    pool.push(n.clone());
                    f = n;
                }
            }
            // The realm's Flo is updated like any other.
            if rng.gen_bool(0.5) {
                let r2 = realm
                    .edit_data_signers(Condition::Pass, |r| r.set_service("http", ids[0].clone()), &[])
                    .unwrap();
                pool.push(r2.flo().clone());
                evs.push(("realm_updates", 1));
            }
            for step in 0..rng.gen_range(20..50) {
                match rng.gen_range(0..10) {
                    0..=6 => {
                        let f = pick(&mut rng, &pool).clone();
                        if let Some((old, _)) = model.flos.get(&f.flo_id()) {
                            if old.cond() != f.cond() {
                                if old.version() == f.version() {
                                    // See [d02_condition]
                                    continue;
                                }
                                evs.push(("other_condition", 1));
                            }
                        }
                        let cs: Vec<FloID> = if rng.gen_bool(0.2) {
                            (0..rng.gen_range(1..3))
                                .map(|_| {
                                    if rng.gen_bool(0.5) {
                                        pick(&mut rng, &ids).clone()
                                    } else {
                                        rnd_id(&mut rng).into()
                                    }
                                })
                                .collect()
                        } else {
                            vec![]
                        };
                        if let Some((old, _)) = model.flos.get(&f.flo_id()) {
                            if old.version() > f.version() {
                                evs.push(("older_version_ignored", 1));
                            } else if old.version() == f.version() && old != &f {
                                evs.push(("forks_ignored", 1));
                            }
                        }
                        let way = deliver(&mut rng, &mut node, &f, cs.clone());
                        fp = mon::hash64(&(fp, way, f.version()));
                        model.store(&f, &cs);
                        evs.push(("deliveries", 1));
                    }
                    7 if rng.gen_bool(0.3) => {
                        // Many Flos at once, some of them known.
                        let fcs: Vec<(Flo, Vec<FloID>)> = (0..rng.gen_range(2..40))
                            .map(|_| {
                                let f = mk_flo(&mut rng, &rid, 10, Cuckoo::None);
                                ids.push(f.flo_id());
                                let cs = (0..rng.gen_range(0..6)).map(|_| rnd_id(&mut rng).into()).collect();
                                (f, cs)
                            })
                            .collect();
                        for (f, c) in &fcs {
                            model.store(f, c);
                        }
                        evs.push(("bulk_deliveries", 1));
                        node.from_router(DHTRouterOut::MessageNeighbour(
                            rnd_id(&mut rng).into(),
                            wrap(&MessageNeighbour::Flos(fcs)),
                        ));
                    }
                    7 => {
                        let p = pick(&mut rng, &ids).clone();
                        let c: FloID = rnd_id(&mut rng).into();
                        node.from_router(DHTRouterOut::MessageClosest(
                            rnd_id(&mut rng).into(),
                            rnd_id(&mut rng).into(),
                            p.clone().into(),
                            wrap(&MessageClosest::StoreCuckooID(rid.global_id(c.clone()))),
                        ));
                        model.link(&p, &c);
                        evs.push(("cuckoo_links", 1));
                    }
                    8 => {
                        // What a node asks for when a neighbour tells what it has
                        let _ = node.sync().await;
                        let metas: Vec<FloMeta> = ids
                            .iter()
                            .map(|id| FloMeta {
                                id: id.clone(),
                                version: rng.gen_range(0..6),
                                cuckoos: rng.gen_range(0..4),
                            })
                            .collect();
                        let from: NodeID = rnd_id(&mut rng).into();
                        node.from_router(DHTRouterOut::MessageNeighbour(
                            from,
                            wrap(&MessageNeighbour::AvailableFlos(rid.clone(), metas.clone())),
                        ));
                        let (_, nets) = node.sync().await;
                        let want: HashSet<FloID> = metas
                            .iter()
                            .filter(|m| {
                                model
                                    .flos
                                    .get(&m.id)
                                    .map(|(f, c)| f.version() < m.version || (c.len() as u32) < m.cuckoos)
                                    .unwrap_or(true)
                            })
                            .map(|m| m.id.clone())
                            .collect();
                        let mut got: HashSet<FloID> = HashSet::new();
                        for n in nets {
                            if let DHTRouterIn::MessageNeighbour(dst, w) = n {
                                if let Some(MessageNeighbour::RequestFlos(r, f)) = w.unwrap_yaml(MODULE) {
                                    if dst != from || r != rid {
                                        bad.push(("request-to-wrong-node".into(), json!({})));
                                    }
                                    got.extend(f);
                                }
                            }
                        }
                        evs.push(("metas_checked", metas.len() as u64));
                        if got != want {
                            bad.push((
                                "sync-requests-differ".into(),
                                json!({"step": step, "want": want.len(), "got": got.len()}),
                            ));
                        }
                    }
                    _ => {
                        let want = model.state();
                        let got = node.state().await;
                        evs.push(("states_compared", 1));
                        // What it tells its neighbours, and the statistics
                        let from: NodeID = rnd_id(&mut rng).into();
                        node.from_router(DHTRouterOut::MessageNeighbour(
                            from,
                            wrap(&MessageNeighbour::RequestFloMetas(rid.clone())),
                        ));
                        let (_, nets) = node.sync().await;
                        let mut list: Vec<(B, u32, u32)> = nets
                            .into_iter()
                            .filter_map(|n| match n {
                                DHTRouterIn::MessageNeighbour(d, w) if d == from => w.unwrap_yaml(MODULE),
                                _ => None,
                            })
                            .flat_map(|m| match m {
                                MessageNeighbour::AvailableFlos(r, l) if r == rid => l,
                                _ => vec![],
                            })
                            .map(|m| (m.id.to_bytes(), m.version, m.cuckoos))
                            .collect();
                        let mut should: Vec<(B, u32, u32)> = want
                            .iter()
                            .map(|(k, (f, c))| (k.1, f.version(), c.len() as u32))
                            .collect();
                        list.sort();
                        should.sort();
                        if list != should {
                            bad.push(("listing-differs".into(), json!({"step": step, "listed": list.len(), "stored": should.len()})));
                        }
                        let stats = node.ds.stats.borrow().clone();
                        let st = stats.realm_stats.get(&rid).cloned();
                        if st.as_ref().map(|s| (s.flos, s.distribution.iter().sum::<usize>())) != Some((want.len(), want.len())) {
                            bad.push(("statistics-differ".into(), json!({"step": step, "flos": want.len(),
                                "stats": st.map(|s| (s.flos, s.distribution))})));
                        }
                        if let Some((s, d)) = diff(&got, &want) {
                            bad.push((s, d));
                        }
                    }
                }
                // Two entrances (user and network): keep the order of the deliveries.
                let _ = node.sync().await;
                if bad.len() > 0 {
                    break;
                }
            }
            if bad.is_empty() {
                let got = node.state().await;
                if let Some((s, d)) = diff(&got, &model.state()) {
                    bad.push((s, d));
                }
                for (f, c) in got.values() {
                    fp = mon::hash64(&(fp, f.version(), c.len()));
                }
            }
            // Single values and cuckoos are the same as the whole state
            for id in &ids {
                let gid = rid.global_id(id.clone());
                node.local(DHTStorageIn::ReadFlo(gid.clone()));
                node.local(DHTStorageIn::ReadCuckooIDs(gid.clone()));
                let (outs, _) = node.sync().await;
                let want = model.flos.get(id);
                let flo = outs.iter().find_map(|o| match o {
                    DHTStorageOut::FloValue(fc) => Some(fc),
                    _ => None,
                });
                let cks = outs.iter().find_map(|o| match o {
                    DHTStorageOut::CuckooIDs(g, c) if g == &gid => Some(c),
                    _ => None,
                });
                evs.push(("reads_checked", 1));
                let set = |v: &Vec<FloID>| v.iter().map(|f| f.to_bytes()).collect::<BTreeSet<_>>();
                if flo.map(|(f, c)| (f.clone(), set(c))) != want.map(|(f, c)| (f.clone(), set(c)))
                    || cks.map(|c| set(c)) != want.map(|(_, c)| set(c))
                    || cks.map(|c| c.len()) != want.map(|(_, c)| c.len())
                {
                    if bad.is_empty() {
                        bad.push(("read-differs".into(), json!({"flo": format!("{id}")})));
                    }
                }
            }
            (bad, fp, evs)
        });
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((bad, fp, evs)) => {
                for (e, n) in evs {
                    mon.count(e, n);
                }
                mon.nontrivial(fp);
                mon.count("oracle_checks", 1);
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("storage");
    }

    // The owners give their Flo to somebody else, without changing the data.
    for i in 0..mon.n(10, 100) {
        let Some(mut rng) = mon.begin(format!("condition{i}")) else {
            continue;
        };
        let r = drive(&rt, 60, async {
            let realm = mk_realm(&mut rng, 5, 10_000_000);
            let mut node = Node::new(rnd_id(&mut rng).into(), vec![], Box::new(DataStorageTemp::new())).await;
            node.local(DHTStorageIn::StoreFlo(realm.flo().clone()));
            let (old, new) = (SignerEd25519::new(), SignerEd25519::new());
            let (c_old, c_new) = (Condition::Verifier(old.verifier()), Condition::Verifier(new.verifier()));
            let f = Flo::new_signer(realm.realm_id(), c_old.clone(), &data(&mut rng, 20), FloConfig::default(), &[&old]).unwrap();
            let g = f.update_cond_signers(c_old, c_new.clone(), &[&old], &[&new]).unwrap();
            node.local(DHTStorageIn::StoreFlo(f.clone()));
            let _ = node.sync().await;
            deliver(&mut rng, &mut node, &g, vec![]);
            let _ = node.sync().await;
            let got = node.state().await.remove(&(f.realm_id().to_bytes(), f.flo_id().to_bytes())).unwrap().0;
            let first = got.cond() == g.cond();
            // With the next data it has to be the new owner's in any case.
            let h = g.update_data_signers(c_new, data(&mut rng, 20), &[&new]).unwrap();
            deliver(&mut rng, &mut node, &h, vec![]);
            deliver(&mut rng, &mut node, &f, vec![]);
            deliver(&mut rng, &mut node, &g, vec![]);
            let _ = node.sync().await;
            let got = node.state().await.remove(&(f.realm_id().to_bytes(), f.flo_id().to_bytes())).unwrap().0;
            (first, got == h)
        });
        mon.count("condition_updates", 1);
        mon.nontrivial(("condition", i));
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((first, second)) => {
                mon.check(first, "condition-update-ignored", || {
                    json!({"what": "a new condition, signed by the old and new owners, is not stored until the data changes too"})
                });
                mon.check(second, "new-owners-version-not-kept", || json!({}));
            }
        }
        mon.check_panics("storage");
    }

    // A newer version which the owners didn't sign.
    for i in 0..mon.n(10, 100) {
        let Some(mut rng) = mon.begin(format!("forged{i}")) else {
            continue;
        };
        let r = drive(&rt, 60, async {
            let realm = mk_realm(&mut rng, 5, 10_000_000);
            let rid = realm.realm_id();
            let id: NodeID = rnd_id(&mut rng).into();
            let mut node = Node::new(id, vec![], Box::new(DataStorageTemp::new())).await;
            node.local(DHTStorageIn::StoreFlo(realm.flo().clone()));
            let owner = SignerEd25519::new();
            let cond = Condition::Verifier(owner.verifier());
            let f0 = Flo::new_signer(rid.clone(), cond.clone(), &data(&mut rng, 20), FloConfig::default(), &[&owner]).unwrap();
            let f1 = f0
                .update_data_signers(cond.clone(), data(&mut rng, 30), &[&owner])
                .unwrap();
            let f2 = f1
                .update_data_signers(cond, data(&mut rng, 30), &[&owner])
                .unwrap();
            node.local(DHTStorageIn::StoreFlo(f1.clone()));
            let _ = node.sync().await;
            // Take the honest next version and change its data: the signature doesn't fit anymore.
            let mut v = serde_json::to_value(&f2).unwrap();
            let hex = find_key(&mut v, "data").expect("data of the Flo");
            *hex = json!("00112233");
            let forged: Flo = serde_json::from_value(v).unwrap();
            assert!(!forged.verify().unwrap_or(false));
            assert_eq!(forged.flo_id(), f1.flo_id());
            let _ = node.sync().await;
            deliver(&mut rng, &mut node, &forged, vec![]);
            let _ = node.sync().await;
            let st = node.state().await;
            let got = &st[&(rid.to_bytes(), f1.flo_id().to_bytes())].0;
            got == &forged
        });
        mon.count("forged_updates", 1);
        mon.nontrivial(("forged", i));
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some(stored) => {
                mon.check(!stored, "unverified-update-stored", || {
                    json!({"what": "a Flo with a signature that doesn't fit replaced the owners' version"})
                });
            }
        }
        mon.check_panics("storage");
    }
}

fn find_key<'a>(v: &'a mut serde_json::Value, key: &str) -> Option<&'a mut serde_json::Value> {
    match v {
        serde_json::Value::Object(m) => {
            if m.contains_key(key) {
                return m.get_mut(key);
            }
            m.values_mut().find_map(|v| find_key(v, key))
        }
        serde_json::Value::Array(a) => a.iter_mut().find_map(|v| find_key(v, key)),
        _ => None,
    }
}

// ---------------------------------------------------------------- D03
/// A Flo of type Realm which isn't the realm's own Flo arrives before the realm.
fn d03_fake_first(mon: &mut Mon) {
    let rt = rt_current();
    for i in 0..mon.n(10, 100) {
        let Some(mut rng) = mon.begin(format!("fake{i}")) else {
            continue;
        };
        let r = drive(&rt, 60, async {
            let realm = mk_realm(&mut rng, 5, 100_000);
            let acc = if i % 2 == 0 { vec![] } else { vec![realm.realm_id()] };
            let mut node = Node::new(rnd_id(&mut rng).into(), acc, Box::new(DataStorageTemp::new())).await;
            let fake = FloRealm::from_type(
                realm.realm_id(),
                Condition::Pass,
                Realm::new(
                    "fake".into(),
                    RealmConfig {
                        max_space: 1000,
                        max_flo_size: 1,
                    },
                ),
                &[],
            )
            .unwrap();
            let route = deliver(&mut rng, &mut node, fake.flo(), vec![]);
            let _ = node.sync().await;
            (route, node.realms().await.len())
        });
        mon.count("fake_realm_flos", 1);
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((route, n)) => {
                mon.nontrivial(("fake", route));
                mon.check(n == 0, "realm-created-by-foreign-realm-flo", || json!({"route": route, "restricted": i % 2 == 1}));
            }
        }
        mon.check_panics("storage");
    }
}

/// Reads of Flos with the same ID in different realms, and of other Flos, wait at the same
/// time; the answers come in any order, mixed with answers nobody asked for.
fn d03_concurrent(mon: &mut Mon) {
    let rt = rt_current();
    for i in 0..mon.n(25, 500) {
        let Some(mut rng) = mon.begin(format!("reads{i}")) else {
            continue;
        };
        let r = drive(&rt, 60, async {
            let mut bad: Vec<Bad> = vec![];
            let mut node = Node::new(rnd_id(&mut rng).into(), vec![], Box::new(DataStorageTemp::new())).await;
            let mut flos: Vec<Flo> = vec![];
            for _ in 0..rng.gen_range(1..4) {
                let force = rnd_id(&mut rng);
                for _ in 0..rng.gen_range(1..4) {
                    flos.push(
                        Flo::new_signer(
                            rnd_id(&mut rng).into(),
                            Condition::Pass,
                            &data(&mut rng, 10),
                            FloConfig {
                                cuckoo: Cuckoo::None,
                                force_id: Some(force),
                            },
                            &[],
                        )
                        .unwrap(),
                    );
                }
                // The same realm, but another ID
                if rng.gen_bool(0.5) {
                    let rid = flos.last().unwrap().realm_id();
                    flos.push(mk_flo(&mut rng, &rid, 12, Cuckoo::None));
                }
            }
            let cuckoos: Vec<Vec<FloID>> = flos
                .iter()
                .map(|_| (0..rng.gen_range(0..4)).map(|_| rnd_id(&mut rng).into()).collect())
                .collect();
            let mut dss: Vec<DHTStorage> = flos.iter().map(|_| node.ds.clone()).collect();
            let mut dss2: Vec<DHTStorage> = flos.iter().map(|_| node.ds.clone()).collect();
            let reads = futures::future::join_all(dss.iter_mut().zip(&flos).map(|(d, f)| {
                let id = f.global_id();
                async move { d.get_flo_timeout::<Bytes>(&id, 20_000).await }
            }));
            let lists = futures::future::join_all(dss2.iter_mut().zip(&flos).map(|(d, f)| {
                let id = f.global_id();
                async move { d.get_cuckoos(&id).await }
            }));
            let me = node.id;
            let answers = async {
                // All have asked before the first gets its answer.
                while {
                    let mut asked = 0;
                    while node.to_router.try_recv().is_ok() {
                        asked += 1;
                    }
                    asked < 1
                } {
                    tokio::task::yield_now().await;
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                    node.router.settle(vec![]).await.unwrap();
                }
                let mut order: Vec<usize> = (0..flos.len()).chain(0..flos.len()).collect();
                order.shuffle(&mut rng);
                for a in order {
                    node.from_router(DHTRouterOut::MessageDest(
                        me,
                        me,
                        wrap(&MessageDest::CookooIDs(flos[a].global_id(), cuckoos[a].clone())),
                    ));
                    node.from_router(DHTRouterOut::MessageDest(
                        me,
                        me,
                        wrap(&MessageDest::FloValue((flos[a].clone(), vec![]))),
                    ));
                    if rng.gen_bool(0.3) {
                        node.router.settle(vec![]).await.unwrap();
                    }
                }
            };
            let (r, l, _) = tokio::join!(reads, lists, answers);
            for (a, (r, l)) in r.into_iter().zip(l).enumerate() {
                match r {
                    Ok(f) if f.flo() == &flos[a] => {}
                    Ok(f) => bad.push((
                        "other-flo-returned".into(),
                        json!({"reads": flos.len(), "same_id": f.flo_id() == flos[a].flo_id(), "same_realm": f.realm_id() == flos[a].realm_id()}),
                    )),
                    Err(e) => bad.push(("answer-ignored".into(), json!({"error": format!("{e}")}))),
                }
                match l {
                    Ok(ids) if ids == cuckoos[a] => {}
                    Ok(ids) => bad.push(("other-cuckoos-returned".into(), json!({"got": ids.len(), "want": cuckoos[a].len()}))),
                    Err(e) => bad.push(("answer-ignored".into(), json!({"error": format!("{e}")}))),
                }
            }
            (bad, flos.len())
        });
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((bad, n)) => {
                mon.count("concurrent_reads", 2 * n as u64);
                mon.nontrivial(("reads", i, n));
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("storage");
    }
}

fn d03(mon: &mut Mon) {
    mon.rule("Flos of accepted and refused realms delivered by all routes, with hostile messages in between; distinct = (accepted realms, deliveries)");
    mon.require("foreign_deliveries", 300);
    mon.require("accepted_deliveries", 300);
    mon.require("hostile_messages", 150);
    mon.require("fake_realm_flos", 20);
    mon.require("concurrent_reads", 100);
    d03_fake_first(mon);
    d03_concurrent(mon);
    let rt = rt_current();
    for i in 0..mon.n(60, 2000) {
        let Some(mut rng) = mon.begin(format!("realms{i}")) else {
            continue;
        };
        let r = drive(&rt, 120, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: Vec<(&'static str, u64)> = vec![];
            let mut fp = 0u64;
            let realms: Vec<FloRealm> = (0..4)
                .map(|_| {
                    let s = *pick(&mut rng, &[5_000u64, 1_000_000]);
                    mk_realm(&mut rng, 5, s)
                })
                .collect();
            let mut accepted: Vec<RealmID> = realms
                .iter()
                .filter(|_| rng.gen_bool(0.5))
                .map(|r| r.realm_id())
                .collect();
            let mut node = Node::new(
                rnd_id(&mut rng).into(),
                accepted.clone(),
                Box::new(DataStorageTemp::new()),
            )
            .await;
            let mut created: HashSet<RealmID> = HashSet::new();
            // All Flos ever offered
            let mut offered: Vec<Flo> = vec![];
            let accepts = |acc: &Vec<RealmID>, r: &RealmID| acc.is_empty() || acc.contains(r);
            for step in 0..rng.gen_range(20..50) {
                match rng.gen_range(0..10) {
                    0 | 1 => {
                        let r = pick(&mut rng, &realms).clone();
                        if accepts(&accepted, &r.realm_id()) {
                            created.insert(r.realm_id());
                            evs.push(("accepted_deliveries", 1));
                        } else {
                            evs.push(("foreign_deliveries", 1));
                        }
                        deliver(&mut rng, &mut node, r.flo(), vec![]);
                        offered.push(r.flo().clone());
                    }
                    2..=5 => {
                        // A Flo of some realm, perhaps one nobody ever heard of
                        let rid = if rng.gen_bool(0.1) {
                            RealmID::from(rnd_id(&mut rng))
                        } else {
                            pick(&mut rng, &realms).realm_id()
                        };
                        let len = rng.gen_range(0..300);
                        let f = mk_flo(&mut rng, &rid, len, Cuckoo::None);
                        deliver(&mut rng, &mut node, &f, vec![]);
                        offered.push(f);
                        evs.push((
                            if created.contains(&rid) { "accepted_deliveries" } else { "foreign_deliveries" },
                            1,
                        ));
                    }
                    6 => {
                        // Looks like the Flo of a realm, but isn't: its id isn't the realm's.
                        let target = pick(&mut rng, &realms).realm_id();
                        if !created.contains(&target) && accepts(&accepted, &target) {
                            // [fake_realm] below looks at this.
                            continue;
                        }
                        let fake = Flo::new_signer(
                            target.clone(),
                            Condition::Pass,
                            &Realm::new(
                                "fake".into(),
                                RealmConfig {
                                    max_space: 1,
                                    max_flo_size: 1,
                                },
                            ),
                            FloConfig::default(),
                            &[],
                        )
                        .unwrap();
                        deliver(&mut rng, &mut node, &fake, vec![]);
                        offered.push(fake);
                        evs.push(("fake_realm_flos", 1));
                    }
                    7 => {
                        // Hostile and senseless messages
                        let who: NodeID = rnd_id(&mut rng).into();
                        let base = [
                            serde_yaml::to_string(&MessageClosest::StoreFlo(realms[0].flo().clone())).unwrap(),
                            serde_yaml::to_string(&MessageNeighbour::RequestRealmIDs).unwrap(),
                            "".into(),
                            "~".into(),
                            "StoreFlo: 1".into(),
                            "&a [*a]".into(),
                        ];
                        let mut m = pick(&mut rng, &base).clone();
                        if rng.gen_bool(0.7) {
                            let mut b: Vec<char> = m.chars().collect();
                            for _ in 0..rng.gen_range(1..4) {
                                let c = rnd_string(&mut rng, 1).chars().next().unwrap();
                                if b.is_empty() {
                                    b.push(c);
                                } else {
                                    let p = rng.gen_range(0..b.len());
                                    b[p] = c;
                                }
                            }
                            m = b.into_iter().collect();
                            // Never deliver an unaltered Flo here.
                            if m.contains("StoreFlo") {
                                m.truncate(m.char_indices().nth(m.chars().count() / 2).map(|c| c.0).unwrap_or(0));
                            }
                        } else if m.contains("StoreFlo:\n") {
                            m = "StoreFlo:".into();
                        }
                        let module = *pick(&mut rng, &[MODULE, "Other", ""]);
                        let w = NetworkWrapper {
                            module: module.into(),
                            msg: m,
                        };
                        let k = rnd_id(&mut rng);
                        node.from_router(match rng.gen_range(0..4) {
                            0 => DHTRouterOut::MessageNeighbour(who, w),
                            1 => DHTRouterOut::MessageClosest(who, who, k, w),
                            2 => DHTRouterOut::MessageRouting(who, who, who, k, w),
                            _ => DHTRouterOut::MessageDest(who, who, w),
                        });
                        evs.push(("hostile_messages", 1));
                    }
                    8 => {
                        // Neighbours tell about their realms: ask only for the accepted ones.
                        let _ = node.sync().await;
                        let who: NodeID = rnd_id(&mut rng).into();
                        let ids: Vec<RealmID> = realms.iter().map(|r| r.realm_id()).collect();
                        node.from_router(DHTRouterOut::MessageNeighbour(
                            who,
                            wrap(&MessageNeighbour::AvailableRealmIDs(ids.clone())),
                        ));
                        let (_, nets) = node.sync().await;
                        let mut asked: HashSet<RealmID> = HashSet::new();
                        for n in nets {
                            if let DHTRouterIn::MessageNeighbour(_, w) = n {
                                match w.unwrap_yaml(MODULE) {
                                    Some(MessageNeighbour::RequestFlos(r, _))
                                    | Some(MessageNeighbour::RequestFloMetas(r)) => {
                                        asked.insert(r);
                                    }
                                    _ => {}
                                }
                            }
                        }
                        let want: HashSet<RealmID> = ids
                            .iter()
                            .filter(|r| accepts(&accepted, r))
                            .cloned()
                            .collect();
                        evs.push(("announcements", 1));
                        if asked != want {
                            bad.push((
                                "asks-for-wrong-realms".into(),
                                json!({"step": step, "asked": asked.len(), "accepted": want.len()}),
                            ));
                        }
                    }
                    _ => {
                        if rng.gen_bool(0.2) {
                            // The signalling server sets the system's realm
                            let r = pick(&mut rng, &realms).realm_id();
                            node.from_router(DHTRouterOut::SystemRealm(r.clone()));
                            if !accepted.contains(&r) {
                                accepted.push(r);
                            }
                            evs.push(("system_realm", 1));
                        }
                        // Another node asks for Flos by the wrong realm.
                        let _ = node.sync().await;
                        if let (Some(f), r) = (offered.choose(&mut rng).cloned(), pick(&mut rng, &realms).realm_id()) {
                            let who: NodeID = rnd_id(&mut rng).into();
                            node.from_router(DHTRouterOut::MessageClosest(
                                who,
                                who,
                                f.flo_id().into(),
                                wrap(&MessageClosest::ReadFlo(r.clone())),
                            ));
                            node.from_router(DHTRouterOut::MessageNeighbour(
                                who,
                                wrap(&MessageNeighbour::RequestFlos(r.clone(), vec![f.flo_id()])),
                            ));
                            node.local(DHTStorageIn::ReadFlo(r.global_id(f.flo_id())));
                            let (outs, nets) = node.sync().await;
                            let mut answers: Vec<Flo> = outs
                                .into_iter()
                                .filter_map(|o| match o {
                                    DHTStorageOut::FloValue((f, _)) => Some(f),
                                    _ => None,
                                })
                                .collect();
                            for n in nets {
                                match n {
                                    DHTRouterIn::MessageDirect(_, w) => {
                                        if let Some(MessageDest::FloValue((f, _))) = w.unwrap_yaml(MODULE) {
                                            answers.push(f)
                                        }
                                    }
                                    DHTRouterIn::MessageNeighbour(_, w) => {
                                        if let Some(MessageNeighbour::Flos(fs)) = w.unwrap_yaml(MODULE) {
                                            answers.extend(fs.into_iter().map(|f| f.0))
                                        }
                                    }
                                    _ => {}
                                }
                            }
                            evs.push(("cross_reads", 1));
                            for a in answers {
                                if a.realm_id() != r || a.flo_id() != f.flo_id() {
                                    bad.push((
                                        "flo-of-other-realm-returned".into(),
                                        json!({"asked": format!("{r}"), "got": format!("{}", a.realm_id())}),
                                    ));
                                }
                            }
                        }
                    }
                }
                let _ = node.sync().await;
                let got = node.realms().await;
                fp = mon::hash64(&(fp, got.len(), accepted.len()));
                let gs: HashSet<RealmID> = got.iter().cloned().collect();
                if gs != created || got.len() != gs.len() {
                    bad.push((
                        if gs.is_subset(&created) { "realm-missing" } else { "realm-not-admitted" }.into(),
                        json!({"step": step, "got": got.len(), "want": created.len(), "restricted": accepted.len()}),
                    ));
                }
                let st = node.state().await;
                for ((r, f), (flo, _)) in &st {
                    if !created.iter().any(|c| &c.to_bytes() == r) || !offered.iter().any(|o| o == flo) {
                        bad.push(("foreign-flo-stored".into(), json!({"step": step, "flo": mon::util::hex(f)})));
                    }
                }
                for c in &created {
                    if !st.contains_key(&(c.to_bytes(), c.to_bytes())) {
                        bad.push(("realm-flo-missing".into(), json!({"step": step})));
                    }
                }
                if bad.len() > 0 {
                    break;
                }
            }
            // Filling one realm leaves the others alone.
            if bad.is_empty() && created.len() >= 2 {
                let small = realms
                    .iter()
                    .find(|r| created.contains(&r.realm_id()) && r.cache().get_config().max_space == 5_000);
                if let Some(small) = small {
                    let sid = small.realm_id().to_bytes();
                    let before: State = node.state().await.into_iter().filter(|(k, _)| k.0 != sid).collect();
                    for _ in 0..20 {
                        let f = mk_flo(&mut rng, &small.realm_id(), 300, Cuckoo::None);
                        deliver(&mut rng, &mut node, &f, vec![]);
                    }
                    let _ = node.sync().await;
                    let after: State = node.state().await.into_iter().filter(|(k, _)| k.0 != sid).collect();
                    evs.push(("realms_filled", 1));
                    if before != after {
                        bad.push(("full-realm-affects-others".into(), json!({})));
                    }
                }
            }
            (bad, fp, evs)
        });
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((bad, fp, evs)) => {
                for (e, n) in evs {
                    mon.count(e, n);
                }
                mon.nontrivial(fp);
                mon.count("oracle_checks", 1);
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("storage");
    }
}

// ---------------------------------------------------------------- D04
fn d04(mon: &mut Mon) {
    mon.rule("node stopped after any write of its storage and started again, also after a start which could not read the storage; distinct = (writes, stored Flos, cuckoos) of the restarts compared");
    mon.require("restarts", 300);
    mon.require("restarts_with_cuckoos", 50);
    mon.require("mixed_lists", 10);
    mon.require("late_links", 5);
    mon.require("starts_without_storage", 5);
    mon.require("learnt_realms", 5);
    let rt = rt_current();
    for i in 0..mon.n(80, 1200) {
        let Some(mut rng) = mon.begin(format!("restart{i}")) else {
            continue;
        };
        let r = drive(&rt, 120, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: Vec<(&'static str, u64)> = vec![];
            let mut fps: Vec<u64> = vec![];
            let id: NodeID = rnd_id(&mut rng).into();
            let rec = Recorder::new();
            let space = *pick(&mut rng, &[4000u64, 1_000_000]);
            let mut realms = vec![mk_realm(&mut rng, 5, space), mk_realm(&mut rng, 5, 1_000_000)];
            for _ in 0..*pick(&mut rng, &[0usize, 0, 1, 2, 5]) {
                realms.push(mk_realm(&mut rng, 5, 1_000_000));
            }
            let mut orphans: Vec<Flo> = vec![];
            // Some nodes accept only the given realms, and those they learn of.
            let accepted = match rng.gen_bool(0.4) {
                true => realms.iter().take(rng.gen_range(1..=realms.len())).map(|r| r.realm_id()).collect(),
                false => vec![],
            };
            let mut node = Node::new(id, accepted.clone(), rec.clone_box()).await;
            let mut known: Vec<Flo> = realms.iter().map(|r| r.flo().clone()).collect();
            if accepted.len() > 0 {
                for r in &realms[accepted.len()..] {
                    node.from_router(DHTRouterOut::SystemRealm(r.realm_id()));
                    evs.push(("learnt_realms", 1));
                }
                let _ = node.sync().await;
            }
            for r in &realms {
                node.local(DHTStorageIn::StoreFlo(r.flo().clone()));
            }
            let _ = node.sync().await;
            let mut prev = node.state().await;
            let mut seen = rec.log.lock().unwrap().len();
            for step in 0..rng.gen_range(5..15) {
                match rng.gen_range(0..10) {
                    0..=4 => {
                        let rid = pick(&mut rng, &realms).realm_id();
                        let cuckoo = match rng.gen_range(0..3) {
                            0 => Cuckoo::Parent(pick(&mut rng, &known).flo_id()),
                            1 => Cuckoo::Duration(rng.gen()),
                            _ => Cuckoo::None,
                        };
                        let len = rng.gen_range(0..400);
                        let f = match rng.gen_range(0..3) {
                            0 => Flo::new_signer(
                                rid,
                                Condition::Pass,
                                &rnd_string(&mut rng, len),
                                FloConfig { cuckoo, force_id: None },
                                &[],
                            )
                            .unwrap(),
                            1 => {
                                let signer = SignerEd25519::new();
                                Flo::new_signer(
                                    rid,
                                    Condition::Verifier(signer.verifier()),
                                    &data(&mut rng, len),
                                    FloConfig { cuckoo, force_id: None },
                                    &[&signer],
                                )
                                .unwrap()
                            }
                            _ => mk_flo(&mut rng, &rid, len, cuckoo),
                        };
                        if rng.gen_bool(0.2) {
                            // A cuckoo which comes before its parent
                            let rid = f.realm_id();
                            let c = mk_flo(&mut rng, &rid, 10, Cuckoo::Parent(f.flo_id()));
                            deliver(&mut rng, &mut node, &c, vec![]);
                            let _ = node.sync().await;
                            orphans.push(c);
                        }
                        deliver(&mut rng, &mut node, &f, vec![]);
                        known.push(f);
                    }
                    5 => {
                        let k = rng.gen_range(2..known.len().max(3));
                        if k < known.len() && known[k].cond() == &ConditionLink::Pass {
                            let f = upd(&mut rng, &known[k], 50);
                            known[k] = f.clone();
                            deliver(&mut rng, &mut node, &f, vec![]);
                        }
                    }
                    6 | 7 => {
                        let p = pick(&mut rng, &known).clone();
                        let c: FloID = rnd_id(&mut rng).into();
                        node.from_router(DHTRouterOut::MessageClosest(
                            id,
                            id,
                            p.flo_id().into(),
                            wrap(&MessageClosest::StoreCuckooID(p.realm_id().global_id(c))),
                        ));
                    }
                    8 => {
                        if orphans.len() > 0 && rng.gen_bool(0.5) {
                            // Comes again, now that the parent is known.
                            let c = orphans.swap_remove(0);
                            deliver(&mut rng, &mut node, &c, vec![]);
                            evs.push(("late_links", 1));
                        } else {
                            let f = pick(&mut rng, &known).clone();
                            let mut cs: Vec<FloID> = (0..rng.gen_range(1..4)).map(|_| rnd_id(&mut rng).into()).collect();
                            deliver(&mut rng, &mut node, &f, cs.clone());
                            if rng.gen_bool(0.6) {
                                // Some new ones, and some which are known already
                                let _ = node.sync().await;
                                cs.push(rnd_id(&mut rng).into());
                                match rng.gen_range(0..3) {
                                    0 => cs.reverse(),
                                    1 => cs.shuffle(&mut rng),
                                    _ => {}
                                }
                                deliver(&mut rng, &mut node, &f, cs);
                                evs.push(("mixed_lists", 1));
                            }
                        }
                    }
                    _ => node.local(DHTStorageIn::GetFlos),
                }
                let _ = node.sync().await;
                let now = node.state().await;
                // Every value written in this step is what a crash could leave behind.
                let writes: Vec<String> = {
                    let log = rec.log.lock().unwrap();
                    log[seen..].iter().filter(|l| l.0 == MODULE).map(|l| l.1.clone()).collect()
                };
                seen = rec.log.lock().unwrap().len();
                let current = rec.get(MODULE).unwrap();
                let mut crash: Vec<(String, bool)> = writes.into_iter().map(|w| (w, false)).collect();
                crash.push((current, true));
                for (value, last) in crash {
                    let mut ds = DataStorageTemp::new();
                    ds.set(MODULE, &value).unwrap();
                    let mut again = Node::new(id, accepted.clone(), Box::new(ds)).await;
                    let got = again.state().await;
                    evs.push(("restarts", 1));
                    if now.values().any(|(_, c)| c.len() > 0) {
                        evs.push(("restarts_with_cuckoos", 1));
                    }
                    fps.push(mon::hash64(&(value.len(), got.len())));
                    if last {
                        if let Some((s, d)) = diff(&got, &now) {
                            bad.push((
                                format!("restart:{s}"),
                                json!({"step": step, "detail": d, "before": now.len(), "after": got.len()}),
                            ));
                        }
                    } else {
                        // Between two states: everything that is in both must be there.
                        for (k, (f, c)) in &now {
                            if let Some((f0, c0)) = prev.get(k) {
                                match got.get(k) {
                                    None => bad.push(("crash:flo-lost".into(), json!({"step": step}))),
                                    Some((g, gc)) => {
                                        if g != f && g != f0 {
                                            bad.push(("crash:content".into(), json!({"step": step})));
                                        }
                                        if !c0.intersection(c).all(|x| gc.contains(x)) {
                                            bad.push(("crash:cuckoos-lost".into(), json!({"step": step})));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if again.realms().await.iter().map(|r| r.to_bytes()).collect::<BTreeSet<_>>()
                        != realms.iter().map(|r| r.realm_id().to_bytes()).collect::<BTreeSet<_>>()
                    {
                        bad.push(("restart:realms".into(), json!({"step": step})));
                    }
                }
                prev = now;
                if bad.len() > 0 {
                    break;
                }
            }
            // A start during which the storage cannot be read may fail, but changes nothing.
            if bad.is_empty() && rng.gen_bool(0.5) {
                *rec.unreadable.lock().unwrap() = true;
                let mut router: BrokerDHTRouter = Broker::new();
                let tap = router.get_tap_in().await.unwrap().0;
                if let Ok(mut ds) = DHTStorage::start(rec.clone_box(), DHTConfig::default(id), Timer::simul().broker, router.clone()).await {
                    let f = pick(&mut rng, &known).clone();
                    let _ = ds.broker.emit_msg_in(DHTStorageIn::StoreFlo(f));
                    let _ = ds.broker.settle(vec![]).await;
                    tokio::task::yield_now().await;
                }
                drop(tap);
                *rec.unreadable.lock().unwrap() = false;
                evs.push(("starts_without_storage", 1));
            }
            // A restarted node goes on like the other one.
            if bad.is_empty() {
                let mut again = Node::new(id, accepted.clone(), rec.clone_box()).await;
                for _ in 0..5 {
                    let rid = pick(&mut rng, &realms).realm_id();
                    let len = rng.gen_range(0..600);
                    let f = mk_flo(&mut rng, &rid, len, Cuckoo::None);
                    node.local(DHTStorageIn::StoreFlo(f.clone()));
                    again.local(DHTStorageIn::StoreFlo(f));
                }
                let a = node.state().await;
                let b = again.state().await;
                evs.push(("continued", 1));
                let keys = |s: &State| s.iter().filter(|(k, _)| k.0 == realms[1].realm_id().to_bytes()).map(|(k, v)| (k.clone(), v.clone())).collect::<State>();
                if space == 1_000_000 && a != b || keys(&a) != keys(&b) {
                    bad.push(("restart:behaves-differently".into(), json!({"old": a.len(), "new": b.len()})));
                }
                for r in &realms {
                    let stats = again.ds.stats.borrow().clone();
                    if let Some(s) = stats.realm_stats.get(&r.realm_id()) {
                        if s.size > s.config.max_space {
                            bad.push(("restart:space-exceeded".into(), json!({"size": s.size})));
                        }
                    } else {
                        bad.push(("restart:no-stats".into(), json!({})));
                    }
                }
            }
            (bad, fps, evs)
        });
        match r {
            None => mon.violation("storage-stuck", json!({})),
            Some((bad, fps, evs)) => {
                for (e, n) in evs {
                    mon.count(e, n);
                }
                for f in fps {
                    mon.nontrivial(f);
                }
                mon.count("oracle_checks", 1);
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("storage");
    }
}

// ---------------------------------------------------------------- D05
/// Forwards what the storages send to their neighbours along a graph; some messages get lost.
async fn exchange(
    rng: &mut StdRng,
    nodes: &mut [Node],
    edges: &HashSet<(usize, usize)>,
    loss: f64,
    evs: &mut BTreeMap<&'static str, u64>,
) -> bool {
    let ids: Vec<NodeID> = nodes.iter().map(|n| n.id).collect();
    for _ in 0..200 {
        let mut any = false;
        let mut order: Vec<usize> = (0..nodes.len()).collect();
        order.shuffle(rng);
        for a in order {
            let (_, nets) = nodes[a].sync().await;
            for n in nets {
                let mut dsts = vec![];
                let w = match n {
                    DHTRouterIn::MessageBroadcast(w) => {
                        dsts.extend((0..nodes.len()).filter(|b| edges.contains(&(a, *b))));
                        w
                    }
                    DHTRouterIn::MessageNeighbour(d, w) => {
                        dsts.extend(
                            ids.iter()
                                .position(|i| i == &d)
                                .filter(|b| edges.contains(&(a, *b))),
                        );
                        w
                    }
                    // Routed messages are not delivered: only the neighbours help.
                    _ => continue,
                };
                for b in dsts {
                    if rng.gen_bool(loss) {
                        *evs.entry("lost_messages").or_default() += 1;
                        continue;
                    }
                    *evs.entry("messages").or_default() += 1;
                    any = true;
                    nodes[b].from_router(DHTRouterOut::MessageNeighbour(ids[a], w.clone()));
                }
            }
        }
        if !any {
            return true;
        }
    }
    false
}

fn d05(mon: &mut Mon) {
    mon.rule("two to six nodes with different contents on random connected graphs, messages lost before the last rounds; distinct = (graph, contents)");
    mon.require("converged", 20);
    mon.require("messages", 1000);
    mon.require("lost_messages", 50);
    mon.require("bulk", 3);
    mon.require("often_updated", 2);
    let rt = rt_current();
    for i in 0..mon.n(30, 600) {
        let Some(mut rng) = mon.begin(format!("sync{i}")) else {
            continue;
        };
        let r = drive(&rt, 200, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
            // Few nodes with many Flos, or more nodes
            let bulk = rng.gen_bool(0.3);
            let n = if bulk { rng.gen_range(2..4) } else { rng.gen_range(2..7) };
            let mut nodes = vec![];
            for _ in 0..n {
                nodes.push(Node::new(rnd_id(&mut rng).into(), vec![], Box::new(DataStorageTemp::new())).await);
            }
            // A random tree, and some more edges
            let mut edges: HashSet<(usize, usize)> = HashSet::new();
            for b in 1..n {
                let a = rng.gen_range(0..b);
                edges.insert((a, b));
                edges.insert((b, a));
            }
            for _ in 0..rng.gen_range(0..n) {
                let (a, b) = (rng.gen_range(0..n), rng.gen_range(0..n));
                if a != b {
                    edges.insert((a, b));
                    edges.insert((b, a));
                }
            }
            let realms: Vec<FloRealm> = (0..rng.gen_range(1..3)).map(|_| mk_realm(&mut rng, 5, 10_000_000)).collect();
            // (flo, version) -> content; the newest version of each flo wins everywhere.
            let mut want: HashMap<(B, B), Flo> = HashMap::new();
            let mut links: HashMap<(B, B), BTreeSet<B>> = HashMap::new();
            let mut all: Vec<Flo> = vec![];
            for r in &realms {
                let at = rng.gen_range(0..n);
                nodes[at].local(DHTStorageIn::StoreFlo(r.flo().clone()));
                // Nodes which know the realm from elsewhere
                for node in nodes.iter_mut() {
                    if rng.gen_bool(0.5) {
                        node.local(DHTStorageIn::StoreFlo(r.flo().clone()));
                    }
                }
                want.insert((r.realm_id().to_bytes(), r.flo_id().to_bytes()), r.flo().clone());
            }
            let mut contents = 0u64;
            if bulk {
                let rid = realms[0].realm_id();
                let first = mk_flo(&mut rng, &rid, 30, Cuckoo::Duration(100));
                let key = (rid.to_bytes(), first.flo_id().to_bytes());
                let at: Vec<usize> = {
                    let mut v = vec![];
                    for (a, node) in nodes.iter_mut().enumerate() {
                        if node.realms().await.contains(&rid) {
                            v.push(a);
                        }
                    }
                    v
                };
                let at = *pick(&mut rng, &at);
                let mut flos = vec![first.clone()];
                for _ in 0..rng.gen_range(80..150) {
                    let c = rng.gen_bool(0.2);
                    let f = mk_flo(&mut rng, &rid, 10, if c { Cuckoo::Parent(first.flo_id()) } else { Cuckoo::None });
                    if c {
                        links.entry(key).or_default().insert(f.flo_id().to_bytes());
                    }
                    flos.push(f);
                }
                for f in flos {
                    want.insert((rid.to_bytes(), f.flo_id().to_bytes()), f.clone());
                    nodes[at].local(DHTStorageIn::StoreFlo(f.clone()));
                    all.push(f);
                }
                *evs.entry("bulk").or_default() += 1;
            }
            let rounds = rng.gen_range(1..5);
            for round in 0..rounds {
                for _ in 0..rng.gen_range(1..6) {
                    let at = rng.gen_range(0..n);
                    let have = nodes[at].realms().await;
                    let Some(rid) = have.choose(&mut rng).cloned() else {
                        continue;
                    };
                    let f = if all.len() > 0 && rng.gen_bool(0.4) {
                        // The newest version of something is updated and known only here.
                        let k = rng.gen_range(0..all.len());
                        if !have.contains(&all[k].realm_id()) {
                            continue;
                        }
                        let mut f = upd(&mut rng, &all[k], 40);
                        if rng.gen_bool(0.1) && f.version() < 256 {
                            // A Flo which is updated very often in one place
                            while f.version() % 256 != 0 {
                                f = upd(&mut rng, &f, 4);
                            }
                            *evs.entry("often_updated").or_default() += 1;
                        }
                        all[k] = f.clone();
                        f
                    } else {
                        let parents: Vec<FloID> = all.iter().filter(|f| f.realm_id() == rid).map(|f| f.flo_id()).collect();
                        let cuckoo = match parents.choose(&mut rng) {
                            Some(p) if rng.gen_bool(0.4) => Cuckoo::Parent(p.clone()),
                            _ => Cuckoo::Duration(100),
                        };
                        let f = mk_flo(&mut rng, &rid, 30, cuckoo.clone());
                        if let Cuckoo::Parent(p) = cuckoo {
                            links
                                .entry((rid.to_bytes(), p.to_bytes()))
                                .or_default()
                                .insert(f.flo_id().to_bytes());
                        }
                        all.push(f.clone());
                        f
                    };
                    contents = mon::hash64(&(contents, at, f.version()));
                    want.insert((f.realm_id().to_bytes(), f.flo_id().to_bytes()), f.clone());
                    nodes[at].local(DHTStorageIn::StoreFlo(f));
                }
                // Some exchange in between, with losses and only parts of the nodes.
                for node in nodes.iter_mut() {
                    match rng.gen_range(0..3) {
                        0 => node.local(DHTStorageIn::SyncFromNeighbors),
                        1 => node.local(DHTStorageIn::PropagateFlos),
                        _ => {}
                    }
                }
                let loss = if round + 1 == rounds { 0.3 } else { 0.5 };
                exchange(&mut rng, &mut nodes, &edges, loss, &mut evs).await;
            }
            // No more losses: one round moves every Flo by at least one edge, and a cuckoo is
            // known to its parent only once a node has both.
            for _ in 0..2 * n {
                for node in nodes.iter_mut() {
                    node.local(DHTStorageIn::SyncFromNeighbors);
                }
                if !exchange(&mut rng, &mut nodes, &edges, 0., &mut evs).await {
                    bad.push(("exchange-never-ends".into(), json!({"nodes": n})));
                    break;
                }
            }
            for (a, node) in nodes.iter_mut().enumerate() {
                let st = node.state().await;
                *evs.entry("states").or_default() += 1;
                for (k, f) in &want {
                    match st.get(k) {
                        None => bad.push(("flo-not-everywhere".into(), json!({"node": a, "nodes": n, "flo": format!("{}", f.flo_id())}))),
                        Some((g, _)) if g != f => bad.push((
                            "old-version-after-sync".into(),
                            json!({"node": a, "want": f.version(), "got": g.version()}),
                        )),
                        Some((_, c)) => {
                            let w = links.get(k).cloned().unwrap_or_default();
                            if !w.is_subset(c) {
                                bad.push((
                                    "cuckoos-not-everywhere".into(),
                                    json!({"node": a, "want": w.len(), "got": c.len()}),
                                ));
                            } else if !c.is_subset(&w) {
                                bad.push(("invented-cuckoo".into(), json!({"node": a})));
                            }
                        }
                    }
                }
                if st.len() != want.len() {
                    bad.push(("unknown-flo-after-sync".into(), json!({"node": a})));
                }
            }
            // Nothing more to say: a further round asks for no Flo
            let before = bad.len();
            for node in nodes.iter_mut() {
                node.local(DHTStorageIn::SyncFromNeighbors);
            }
            for _ in 0..6 {
                for a in 0..n {
                    let (_, nets) = nodes[a].sync().await;
                    for m in nets {
                        let (dsts, w): (Vec<usize>, _) = match m {
                            DHTRouterIn::MessageBroadcast(w) => ((0..n).filter(|b| edges.contains(&(a, *b))).collect(), w),
                            DHTRouterIn::MessageNeighbour(d, w) => (
                                nodes.iter().position(|x| x.id == d).into_iter().filter(|b| edges.contains(&(a, *b))).collect(),
                                w,
                            ),
                            _ => continue,
                        };
                        if let Some(MessageNeighbour::RequestFlos(_, f)) = w.unwrap_yaml(MODULE) {
                            if before == 0 && bad.len() == before {
                                bad.push(("asks-for-flos-it-has".into(), json!({"node": a, "flos": f.len()})));
                            }
                        }
                        let id = nodes[a].id;
                        for b in dsts {
                            nodes[b].from_router(DHTRouterOut::MessageNeighbour(id, w.clone()));
                        }
                    }
                }
            }
            if bad.is_empty() {
                *evs.entry("converged").or_default() += 1;
            }
            (bad, mon::hash64(&(n, edges.len(), contents, want.len())), evs)
        });
        match r {
            None => mon.violation("sync-stuck", json!({})),
            Some((bad, fp, evs)) => {
                for (e, n) in evs {
                    mon.count(e, n);
                }
                mon.nontrivial(fp);
                mon.count("oracle_checks", 1);
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("sync");
    }
}

// ---------------------------------------------------------------- D06
struct Net {
    simul: NetworkSimul,
    timer: Timer,
    nodes: Vec<DHTStorage>,
    routers: Vec<DHTRouter>,
}

impl Net {
    async fn new(n: usize, k: usize) -> Self {
        let mut net = Net {
            simul: NetworkSimul::new().await.unwrap(),
            timer: Timer::simul(),
            nodes: vec![],
            routers: vec![],
        };
        for _ in 0..n {
            net.add(k).await;
        }
        net
    }

    async fn add(&mut self, k: usize) {
        let n = self.simul.new_node().await.unwrap();
        let id = n.config.info.get_id();
        let mut cfg = kademlia::Config::default(id);
        cfg.k = k;
        let router = DHTRouter::start(cfg, self.timer.broker.clone(), n.router).await.unwrap();
        let mut c = DHTConfig::default(id);
        c.timeout = 3000;
        self.nodes.push(
            DHTStorage::start(
                Box::new(DataStorageTemp::new()),
                c,
                self.timer.broker.clone(),
                router.broker.clone(),
            )
            .await
            .unwrap(),
        );
        self.routers.push(router);
    }

    async fn settle(&mut self) {
        for _ in 0..3 {
            for n in &mut self.nodes {
                n.broker.settle(vec![]).await.unwrap();
            }
            self.simul.settle().await.unwrap();
        }
    }

    /// All nodes know all others and pinged them.
    async fn introduce(&mut self, ticks: usize) {
        self.simul.send_node_info().await.unwrap();
        self.settle().await;
        for _ in 0..ticks {
            self.timer.broker.emit_msg_out(TimerMessage::Minute).unwrap();
            self.timer.broker.settle(vec![]).await.unwrap();
            self.settle().await;
        }
    }
}

fn d06(mon: &mut Mon) {
    mon.rule("Flos stored on one node and read from another one over the simulated network; distinct = (nodes, bucket size, storing and reading node, what)");
    mon.require("remote_reads", 50);
    mon.require("routed_reads", 10);
    mon.require("conversions", 25);
    mon.require("conversions_with_missing", 4);
    mon.require("direct_cuckoo_reads", 5);
    let rt = mon::rt_multi(2);
    for i in 0..mon.n(16, 200) {
        let Some(mut rng) = mon.begin(format!("net{i}")) else {
            continue;
        };
        let n = rng.gen_range(2..10);
        let k = rng.gen_range(1..4);
        let r = drive(&rt, 300, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut fps = vec![];
            let mut net = Net::new(n, k).await;
            net.introduce(3).await;
            let owner = SignerEd25519::new();
            let cond = Condition::Verifier(owner.verifier());
            let realm = FloRealm::new(
                "test",
                cond.clone(),
                RealmConfig {
                    max_space: 10_000_000,
                    max_flo_size: 100_000,
                },
                &[&owner],
            )
            .unwrap();
            let mut realms = vec![realm];
            for _ in 0..rng.gen_range(0..3) {
                realms.push(mk_realm(&mut rng, 5, 10_000_000));
            }
            for r in &realms {
                net.nodes[0].store_flo(r.flo().clone()).unwrap();
            }
            net.settle().await;
            for _ in 0..n {
                for d in &mut net.nodes {
                    d.sync().unwrap();
                }
                net.settle().await;
            }
            for a in 0..n {
                for realm in &realms {
                    match net.nodes[a].get_flo::<Realm>(&realm.global_id()).await {
                        Ok(f) if f.flo() == realm.flo() => {}
                        e => bad.push(("realm-not-found".into(), json!({"node": a, "n": n, "k": k, "error": format!("{:?}", e.map(|f| f.version()))}))),
                    }
                }
            }
            for q in 0..8 {
                if bad.len() > 0 {
                    break;
                }
                let (a, b) = (rng.gen_range(0..n), rng.gen_range(0..n));
                let rid = pick(&mut rng, &realms).realm_id();
                let ids: Vec<NodeID> = net.simul.nodes.iter().map(|s| s.config.info.get_id()).collect();
                // Routing works by the length of the common prefix: only if one node
                // is closer than all others must a Flo be found without the nodes
                // synchronizing their storages first.
                let unique = |f: &FloID| {
                    let ds: Vec<usize> = ids.iter().map(|i| depth_flo(i, f)).collect();
                    let m = *ds.iter().max().unwrap();
                    ds.iter().filter(|d| **d == m).count() == 1
                };
                fps.push(mon::hash64(&(n, k, a, b, q % 4)));
                match q % 4 {
                    0 | 1 => {
                        let mut fw = FloWrapper::<Bytes>::from_type(rid.clone(), cond.clone(), data(&mut rng, 50), &[&owner]).unwrap();
                        for _ in 0..20 {
                            if unique(&fw.flo_id()) {
                                break;
                            }
                            fw = FloWrapper::<Bytes>::from_type(rid.clone(), cond.clone(), data(&mut rng, 50), &[&owner]).unwrap();
                        }
                        net.nodes[a].store_flo(fw.flo().clone()).unwrap();
                        net.settle().await;
                        if q % 4 == 0 {
                            if unique(&fw.flo_id()) {
                                *evs.entry("routed_reads").or_default() += 1;
                            } else {
                                for _ in 0..n {
                                    for d in &mut net.nodes {
                                        d.sync().unwrap();
                                    }
                                    net.settle().await;
                                }
                            }
                        }
                        if q % 4 == 1 {
                            // An update which is made on another node
                            let d = data(&mut rng, 60);
                            fw = fw.edit_data_signers(cond.clone(), |x| *x = d, &[&owner]).unwrap();
                            let c = rng.gen_range(0..n);
                            net.nodes[c].store_flo(fw.flo().clone()).unwrap();
                            net.settle().await;
                            for _ in 0..n {
                                for d in &mut net.nodes {
                                    d.sync().unwrap();
                                }
                                net.settle().await;
                            }
                        }
                        *evs.entry("remote_reads").or_default() += 1;
                        match net.nodes[b].get_flo::<Bytes>(&fw.global_id()).await {
                            Ok(f) => {
                                if f.flo() != fw.flo() || f.cache() != fw.cache() {
                                    bad.push(("read-returns-other-flo".into(), json!({"n": n, "k": k, "want": fw.version(), "got": f.version()})));
                                }
                            }
                            Err(e) if std::env::var("MON_DEBUG").is_ok() => {
                                let fid = fw.flo_id();
                                for (i, d) in net.nodes.iter_mut().enumerate() {
                                    let has = d.get_flos().await.unwrap().iter().any(|f| f.flo_id() == fid);
                                    let st = net.routers[i].stats.borrow().clone();
                                    let id = net.simul.nodes[i].config.info.get_id();
                                    eprintln!("{i} {id} depth {} has {has} buckets {:?}", depth_flo(&id, &fid), st.bucket_nodes);
                                    eprintln!("    all {:?}", st.all_nodes);
                                }
                                eprintln!("flo {fid} stored at {a} read from {b}: {e}");
                                bad.push(("stored-flo-not-found".into(), json!({})));
                            }
                            Err(e) => bad.push(("stored-flo-not-found".into(), json!({"n": n, "k": k, "stored": a, "read": b, "error": format!("{e}")}))),
                        }
                        // Something that doesn't exist is not found
                        if rng.gen_bool(0.1) {
                            let id = rid.global_id(rnd_id(&mut rng).into());
                            if net.nodes[b].get_flo_timeout::<Bytes>(&id, 200).await.is_ok() {
                                bad.push(("inexistent-flo-found".into(), json!({})));
                            }
                        }
                    }
                    2 => {
                        let new = |rng: &mut StdRng| {
                            FloWrapper::<Bytes>::from_type_cuckoo(rid.clone(), cond.clone(), Cuckoo::Duration(1000), data(rng, 50), &[&owner]).unwrap()
                        };
                        let mut parent = new(&mut rng);
                        for _ in 0..20 {
                            if unique(&parent.flo_id()) {
                                break;
                            }
                            parent = new(&mut rng);
                        }
                        net.nodes[a].store_flo(parent.flo().clone()).unwrap();
                        net.settle().await;
                        let mut want = BTreeSet::new();
                        for _ in 0..rng.gen_range(1..3) {
                            let c = FloWrapper::<Bytes>::from_type_cuckoo(rid.clone(), cond.clone(), Cuckoo::Parent(parent.flo_id()), data(&mut rng, 50), &[&owner]).unwrap();
                            let at = rng.gen_range(0..n);
                            net.nodes[at].store_flo(c.flo().clone()).unwrap();
                            want.insert(c.flo_id().to_bytes());
                            net.settle().await;
                        }
                        if unique(&parent.flo_id()) {
                            // The node closest to the parent knows its cuckoos right away.
                            let c = (0..n).max_by_key(|i| depth_flo(&ids[*i], &parent.flo_id())).unwrap();
                            *evs.entry("direct_cuckoo_reads").or_default() += 1;
                            match net.nodes[c].get_cuckoos(&parent.global_id()).await {
                                Ok(l) => {
                                    let got: BTreeSet<_> = l.iter().map(|i| i.to_bytes()).collect();
                                    if got != want {
                                        bad.push(("cuckoos-not-at-closest".into(), json!({"n": n, "k": k, "want": want.len(), "got": got.len()})));
                                    }
                                }
                                Err(e) => bad.push(("cuckoos-not-found".into(), json!({"n": n, "k": k, "error": format!("{e}")}))),
                            }
                        }
                        for _ in 0..n {
                            for d in &mut net.nodes {
                                d.sync().unwrap();
                            }
                            net.settle().await;
                        }
                        *evs.entry("cuckoo_reads").or_default() += 1;
                        match net.nodes[b].get_cuckoos(&parent.global_id()).await {
                            Ok(ids) => {
                                let got: BTreeSet<_> = ids.iter().map(|i| i.to_bytes()).collect();
                                if got != want {
                                    bad.push(("cuckoos-differ".into(), json!({"n": n, "k": k, "want": want.len(), "got": got.len()})));
                                }
                            }
                            Err(e) => bad.push(("cuckoos-not-found".into(), json!({"n": n, "k": k, "error": format!("{e}")}))),
                        }
                    }
                    _ => {
                        // Conditions are resolved with what the network holds
                        let verifiers: Vec<Signer> = (0..2).map(|_| SignerEd25519::new()).collect();
                        let missing = SignerEd25519::new();
                        for s in &verifiers {
                            net.nodes[a].store_flo(FloVerifier::new(rid.clone(), s.verifier()).flo().clone()).unwrap();
                        }
                        let inner = Condition::NofT(1, verifiers.iter().map(|s| Condition::Verifier(s.verifier())).collect());
                        let badge = FloBadge::from_type(rid.clone(), cond.clone(), BadgeCond::new(inner.to_link()), &[&owner]).unwrap();
                        net.nodes[a].store_flo(badge.flo().clone()).unwrap();
                        net.settle().await;
                        let all: Vec<FloID> = verifiers
                            .iter()
                            .map(|s| FloVerifier::new(rid.clone(), s.verifier()).flo_id())
                            .chain([badge.flo_id()])
                            .collect();
                        if all.iter().all(|f| unique(f)) {
                            *evs.entry("routed_conversions").or_default() += 1;
                        } else {
                            for _ in 0..n {
                                for d in &mut net.nodes {
                                    d.sync().unwrap();
                                }
                                net.settle().await;
                            }
                        }
                        let bl = badge.badge_link();
                        let full = Condition::NofT(
                            2,
                            vec![
                                Condition::Verifier(verifiers[0].verifier()),
                                Condition::Badge(
                                    VersionSpec::Minimal(bl.id.clone(), 0),
                                    flcrypto::access::Badge {
                                        id: bl.id.clone(),
                                        version: bl.version,
                                        condition: Box::new(inner),
                                    },
                                ),
                                Condition::Pass,
                                Condition::Fail,
                            ],
                        );
                        *evs.entry("conversions").or_default() += 1;
                        let got = net.nodes[b].convert(&full.to_link(), &rid).await;
                        if got != full {
                            bad.push(("condition-differs".into(), json!({"n": n, "k": k, "want": format!("{full}"), "got": format!("{got}")})));
                        }
                        if i % 4 > 0 || q > 3 {
                            continue;
                        }
                        let link = ConditionLink::Verifier(missing.verifier().get_id());
                        let mut d = net.nodes[b].clone();
                        let got = tokio::time::timeout(Duration::from_secs(60), d.convert(&link, &rid)).await;
                        *evs.entry("conversions").or_default() += 1;
                        if !matches!(got, Ok(Condition::NotAvailable)) {
                            bad.push(("missing-verifier".into(), json!({"got": format!("{got:?}")})));
                        }
                    }
                }
            }
            (bad, fps, evs)
        });
        match r {
            None => mon.violation("network-stuck", json!({"nodes": n, "k": k})),
            Some((bad, fps, evs)) => {
                for (e, n) in evs {
                    mon.count(e, n);
                }
                for f in fps {
                    mon.nontrivial(f);
                }
                mon.count("oracle_checks", 1);
                for (s, d) in bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("network");
    }

    // Conditions of which some parts are missing: exactly these are unavailable.
    for i in 0..mon.n(4, 40) {
        let Some(mut rng) = mon.begin(format!("missing{i}")) else {
            continue;
        };
        let r = drive(&rt_current(), 60, async {
            let realm = mk_realm(&mut rng, 5, 10_000_000);
            let rid = realm.realm_id();
            let mut node = Node::new(rnd_id(&mut rng).into(), vec![], Box::new(DataStorageTemp::new())).await;
            node.local(DHTStorageIn::StoreFlo(realm.flo().clone()));
            let known: Vec<Signer> = (0..3).map(|_| SignerEd25519::new()).collect();
            let missing: Vec<Signer> = (0..2).map(|_| SignerEd25519::new()).collect();
            for s in &known {
                node.local(DHTStorageIn::StoreFlo(FloVerifier::new(rid.clone(), s.verifier()).flo().clone()));
            }
            // Badges on top of each other, all of them stored.
            let mut badge: Option<(BadgeCond, FloBadge, Condition)> = None;
            for b in 0..rng.gen_range(2..5) {
                let inner = match badge {
                    None => Condition::Verifier(known[2].verifier()),
                    Some((_, fb, c)) => Condition::Badge(
                        VersionSpec::Minimal(fb.badge_link().id, 0),
                        flcrypto::access::Badge {
                            id: fb.badge_link().id,
                            version: fb.badge_link().version,
                            condition: Box::new(c),
                        },
                    ),
                };
                let inner = if b % 2 == 1 { Condition::NofT(1, vec![inner, Condition::Pass]) } else { inner };
                let bc = BadgeCond::new(inner.to_link());
                let fb = FloBadge::from_type(rid.clone(), Condition::Pass, bc.clone(), &[]).unwrap();
                node.local(DHTStorageIn::StoreFlo(fb.flo().clone()));
                badge = Some((bc, fb, inner));
            }
            let (_, fb, inner) = badge.unwrap();
            let _ = node.sync().await;
            let chain = Condition::Badge(
                VersionSpec::Minimal(fb.badge_link().id, 0),
                flcrypto::access::Badge {
                    id: fb.badge_link().id,
                    version: fb.badge_link().version,
                    condition: Box::new(inner),
                },
            );
            let mut parts: Vec<(ConditionLink, Condition)> = vec![
                (ConditionLink::Pass, Condition::Pass),
                (ConditionLink::Fail, Condition::Fail),
                // The same badge twice, side by side
                (chain.to_link(), chain.clone()),
                (chain.to_link(), chain),
            ];
            for s in &known {
                let c = Condition::Verifier(s.verifier());
                parts.push((c.to_link(), c));
            }
            for s in &missing {
                parts.push((Condition::Verifier(s.verifier()).to_link(), Condition::NotAvailable));
            }
            parts.push((
                ConditionLink::Badge(VersionSpec::Exact(rnd_id(&mut rng).into(), 0)),
                Condition::NotAvailable,
            ));
            parts.shuffle(&mut rng);
            let n = rng.gen_range(0..5u32);
            let cut = rng.gen_range(2..parts.len());
            let (l2, c2): (Vec<_>, Vec<_>) = parts.split_off(cut).into_iter().unzip();
            let (mut l1, mut c1): (Vec<_>, Vec<_>) = parts.into_iter().unzip();
            l1.push(ConditionLink::NofT(n, l2));
            c1.push(Condition::NofT(n, c2));
            let want = Condition::NofT(n + 1, c1);
            let got = node.ds.convert(&ConditionLink::NofT(n + 1, l1), &rid).await;
            (got == want, format!("{want}"), format!("{got}"))
        });
        mon.count("conversions_with_missing", 1);
        mon.nontrivial(("missing", i));
        match r {
            None => mon.violation("never-resolved", json!({})),
            Some((ok, want, got)) => {
                mon.check(ok, "condition-differs", || json!({"want": want, "got": got}));
            }
        }
        mon.check_panics("convert");
    }

    // Badges which refer to each other
    for i in 0..mon.n(10, 100) {
        let Some(rng) = mon.begin(format!("badges{i}")) else {
            continue;
        };
        let len = 1 + i % 4;
        let r = bounded(20., move || {
            let mut rng = rng;
            let rt = rt_current();
            drive(&rt, 60, async {
                let realm = mk_realm(&mut rng, 5, 10_000_000);
                let rid = realm.realm_id();
                let mut node = Node::new(rnd_id(&mut rng).into(), vec![], Box::new(DataStorageTemp::new())).await;
                node.local(DHTStorageIn::StoreFlo(realm.flo().clone()));
                // A badge's id is fixed at its creation, so the loop is closed by an update.
                let mut badges: Vec<FloBadge> = vec![];
                for b in 0..len {
                    let c = if b == 0 {
                        ConditionLink::Pass
                    } else {
                        ConditionLink::Badge(VersionSpec::Minimal(badges[b - 1].badge_link().id, 0))
                    };
                    badges.push(FloBadge::from_type(rid.clone(), Condition::Pass, BadgeCond::new(c), &[]).unwrap());
                }
                let last = badges[len - 1].badge_link().id;
                let closed = badges[0]
                    .edit_data_signers(
                        Condition::Pass,
                        |b| *b = BadgeCond::new(ConditionLink::Badge(VersionSpec::Minimal(last.clone(), 0))),
                        &[],
                    )
                    .unwrap();
                for b in badges.iter().chain([&closed]) {
                    node.local(DHTStorageIn::StoreFlo(b.flo().clone()));
                }
                let _ = node.sync().await;
                let link = ConditionLink::Badge(VersionSpec::Minimal(last, 0));
                tokio::time::timeout(Duration::from_secs(10), node.ds.convert(&link, &rid))
                    .await
                    .is_ok()
            })
        });
        mon.count("conversions", 1);
        mon.nontrivial(("badges", len));
        match r {
            Bounded::Done(Some(true)) => {
                mon.count("badge_loops", 1);
            }
            Bounded::Done(_) => mon.violation("badge-loop-never-resolved", json!({"badges": len})),
            Bounded::Panicked => mon.check_panics("convert"),
            Bounded::Stuck(s) => mon.violation("badge-loop-never-resolved", json!({"badges": len, "how": s})),
        }
    }
    let _ = take_panics;
    let _: Option<StdRng> = Some(StdRng::seed_from_u64(0));
    let _: Option<GlobalID> = None;
}

fn main() {
    main_with(|mon, id| match id {
        "D01" => d01(mon),
        "D02" => d02(mon),
        "D03" => d03(mon),
        "D04" => d04(mon),
        "D05" => d05(mon),
        "D06" => d06(mon),
        _ => panic!("unknown property {id}"),
    });
}
