//! K01..K03: routing tables, liveness of their nodes, and routing of messages.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flmodules::{
    dht_router::{
        broker::{DHTRouter, DHTRouterIn, DHTRouterOut},
        kademlia::{Config, KNode, Kademlia},
    },
    nodeconfig::NodeInfo,
    router::{
        broker::BrokerRouter,
        messages::{NetworkWrapper, RouterIn, RouterOut},
    },
    timer::{Timer, TimerMessage},
};
use mon::{
    drive, main_with, rt_current,
    util::{pick, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use tokio::sync::mpsc::UnboundedReceiver;

type Bad = (String, serde_json::Value);

fn rnd_id(rng: &mut StdRng) -> U256 {
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    U256::from(a)
}

fn bytes(id: &U256) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(id.as_ref());
    a
}

/// Length of the common prefix in bits, 255 for identical ids.
fn cpl(a: &U256, b: &U256) -> usize {
    let (a, b) = (bytes(a), bytes(b));
    for bit in 0..256 {
        if (a[bit / 8] ^ b[bit / 8]) & (0x80 >> (bit % 8)) != 0 {
            return bit;
        }
    }
    255
}

/// A random id which has exactly this common prefix with root.
fn at_depth(rng: &mut StdRng, root: &U256, d: usize) -> U256 {
    let r = bytes(root);
    let mut a = [0u8; 32];
    rng.fill(&mut a);
    for bit in 0..d {
        let m = 0x80 >> (bit % 8);
        a[bit / 8] = (a[bit / 8] & !m) | (r[bit / 8] & m);
    }
    let m = 0x80 >> (d % 8);
    a[d / 8] = (a[d / 8] & !m) | (!r[d / 8] & m);
    U256::from(a)
}

fn set(v: &[NodeID]) -> BTreeSet<[u8; 32]> {
    v.iter().map(bytes).collect()
}

// ---------------------------------------------------------------- K01
/// Everything which must be true of a table, however it came to be.
fn table_ok(kad: &Kademlia, known: &BTreeSet<[u8; 32]>) -> Option<(&'static str, serde_json::Value)> {
    let root = kad.config.root;
    let k = kad.config.k;
    let active = kad.active_nodes();
    let cache = kad.cache_nodes();
    let all: Vec<NodeID> = active.iter().chain(&cache).cloned().collect();
    if set(&all).len() != all.len() {
        return Some(("node-twice-in-table", json!({"active": active.len(), "cache": cache.len()})));
    }
    if all.contains(&root) {
        return Some(("own-id-in-table", json!({})));
    }
    if let Some(n) = all.iter().find(|n| !known.contains(&bytes(n))) {
        return Some(("unknown-node-in-table", json!({"node": format!("{n}")})));
    }
    let buckets = kad.bucket_nodes();
    if set(&buckets.concat()) != set(&active) || buckets.concat().len() != active.len() {
        return Some(("buckets-differ-from-active", json!({})));
    }
    for (i, b) in buckets.iter().enumerate() {
        let last = i + 1 == buckets.len();
        for n in b {
            let d = cpl(&root, n);
            if (!last && d != i) || (last && d < i) {
                return Some(("node-in-wrong-bucket", json!({"bucket": i, "depth": d, "buckets": buckets.len()})));
            }
        }
        if !last && b.len() > k {
            return Some(("bucket-too-big", json!({"bucket": i, "len": b.len(), "k": k})));
        }
    }
    for d in (0..20).chain([100, 254, 255]) {
        let want: BTreeSet<[u8; 32]> = active.iter().filter(|n| cpl(&root, n) == d).map(bytes).collect();
        if set(&kad.get_nodes_depth(d)) != want {
            return Some(("nodes-of-depth-differ", json!({"depth": d, "want": want.len()})));
        }
    }
    None
}

fn route_ok(rng: &mut StdRng, kad: &Kademlia) -> Option<(&'static str, serde_json::Value)> {
    let root = kad.config.root;
    let active = kad.active_nodes();
    let d = *pick(rng, &[0usize, 1, 2, 3, 4, 5, 6, 8, 12, 20, 255]);
    let dst = match rng.gen_range(0..4) {
        0 if active.len() > 0 => *pick(rng, &active),
        1 => root,
        _ => at_depth(rng, &root, d.min(254)),
    };
    let dd = cpl(&root, &dst);
    let want: BTreeSet<[u8; 32]> = active.iter().filter(|n| cpl(&root, n) == dd).map(bytes).collect();
    for (what, got) in [("direct", kad.route_direct(&dst)), ("closest", kad.route_closest(&dst, None))] {
        if set(&got) != want {
            return Some(("route-differs", json!({"what": what, "depth": dd, "got": got.len(), "want": want.len()})));
        }
        if dst != root {
            if let Some(n) = got.iter().find(|n| cpl(n, &dst) <= dd && **n != dst) {
                return Some(("route-not-closer", json!({"what": what, "hop": format!("{n}")})));
            }
        }
    }
    let last = if active.len() > 0 && rng.gen() {
        *pick(rng, &active)
    } else {
        let d = rng.gen_range(0..10);
        at_depth(rng, &root, d)
    };
    let got = kad.route_closest(&dst, Some(&last));
    if want.len() > 0 {
        if set(&got) != want {
            return Some(("route-differs", json!({"what": "last", "depth": dd, "got": got.len(), "want": want.len()})));
        }
    } else if got.len() > 0 {
        let m = dd.max(cpl(&root, &last));
        if got.iter().any(|n| cpl(&root, n) <= m || !active.contains(n)) {
            return Some(("route-without-progress", json!({"depth": dd, "last": cpl(&root, &last)})));
        }
    } else {
        // There may be a way around over a node which shares more with this one.
        let m = dd.max(cpl(&root, &last));
        let deepest = kad.bucket_nodes().last().and_then(|b| b.iter().map(|n| cpl(&root, n)).max()).unwrap_or(0);
        if let Some(n) = active.iter().map(|n| cpl(&root, n)).find(|d| *d > m && *d < deepest) {
            return Some(("way-around-not-found", json!({"depth": dd, "last": cpl(&root, &last), "over": n, "deepest": deepest})));
        }
    }
    None
}

fn k01(mon: &mut Mon) {
    mon.rule("sequences of announcements, answers, removals, disconnections and ticks on one table; distinct = (k, shapes of the table)");
    mon.require("operations", 20_000);
    mon.require("activations", 1000);
    mon.require("removals", 1000);
    mon.require("routes", 20_000);
    mon.require("split_tables", 100);
    for i in 0..mon.n(300, 6000) {
        let Some(mut rng) = mon.begin(format!("table{i}")) else {
            continue;
        };
        let root = rnd_id(&mut rng);
        let interval = rng.gen_range(1..5);
        let cfg = Config {
            root,
            k: rng.gen_range(1..5),
            ping_interval: interval,
            ping_timeout: interval + rng.gen_range(1..6),
        };
        let mut kad = Kademlia::new(cfg);
        let maxd = *pick(&mut rng, &[1usize, 3, 6, 12]);
        let mut announced: Vec<NodeID> = vec![];
        // Announced and not removed since.
        let mut known: BTreeSet<[u8; 32]> = BTreeSet::new();
        let mut fp = vec![cfg.k as u64];
        let mut bad: Option<(&'static str, serde_json::Value)> = None;
        for step in 0..rng.gen_range(30..250) {
            let before_active = kad.active_nodes();
            let before_all: BTreeSet<[u8; 32]> = set(&[before_active.clone(), kad.cache_nodes()].concat());
            let op = rng.gen_range(0..100);
            let mut what = "add";
            if op < 40 || announced.len() < 3 {
                let n = if rng.gen_bool(0.2) { rng.gen_range(1..10) } else { 1 };
                let mut ids = vec![];
                for _ in 0..n {
                    ids.push(match rng.gen_range(0..12) {
                        0 => root,
                        1 if announced.len() > 0 => *pick(&mut rng, &announced),
                        2 => {
                            let d = rng.gen_range(0..255);
                            at_depth(&mut rng, &root, d)
                        }
                        3..=5 => rnd_id(&mut rng),
                        _ => {
                            let d = rng.gen_range(0..=maxd);
                            at_depth(&mut rng, &root, d)
                        }
                    });
                }
                if rng.gen() {
                    kad.add_nodes(ids.clone());
                } else {
                    ids.iter().for_each(|i| kad.add_node(*i));
                }
                let newest = ids.iter().rev().find(|i| **i != root).cloned();
                for id in ids {
                    if id != root {
                        announced.push(id);
                        known.insert(bytes(&id));
                    }
                }
                // Of each depth, enough nodes are kept, and some active if some were.
                let all = set(&[kad.active_nodes(), kad.cache_nodes()].concat());
                let depths: BTreeSet<usize> = announced.iter().map(|n| cpl(&root, n)).collect();
                for d in depths {
                    let at = |s: &BTreeSet<[u8; 32]>| s.iter().filter(|n| cpl(&root, &U256::from(**n)) == d).count();
                    let was = announced
                        .iter()
                        .filter(|n| cpl(&root, n) == d && (before_all.contains(&bytes(n))))
                        .map(bytes)
                        .collect::<BTreeSet<_>>()
                        .len();
                    if at(&all) < was.min(cfg.k) {
                        bad = Some(("add-loses-nodes", json!({"depth": d, "was": was, "is": at(&all), "k": cfg.k})));
                    }
                    let wa = before_active.iter().filter(|n| cpl(&root, n) == d).count();
                    let na = kad.active_nodes().iter().filter(|n| cpl(&root, n) == d).count();
                    if na < wa.min(cfg.k) {
                        bad = Some(("add-loses-active-nodes", json!({"depth": d, "was": wa, "is": na, "k": cfg.k})));
                    }
                }
                // A node of a depth where there are none is always taken in.
                if let Some(newest) = newest {
                    let d = cpl(&root, &newest);
                    if !all.iter().any(|n| cpl(&root, &U256::from(*n)) == d) {
                        bad = Some(("add-ignored", json!({"depth": d})));
                    }
                }
            } else if op < 70 {
                what = "active";
                let id = match rng.gen_range(0..10) {
                    0 => rnd_id(&mut rng),
                    1 => *pick(&mut rng, &announced),
                    _ => {
                        let c = kad.cache_nodes();
                        if c.is_empty() {
                            *pick(&mut rng, &announced)
                        } else {
                            *pick(&mut rng, &c)
                        }
                    }
                };
                let was_cached = kad.cache_nodes().contains(&id);
                let ret = kad.node_active(&id);
                let is_active = kad.active_nodes().contains(&id);
                if ret != (was_cached && is_active) {
                    bad = Some(("activation-report", json!({"reported": ret, "cached": was_cached, "active": is_active})));
                }
                if ret {
                    mon.count("activations", 1);
                }
                let at = kad.get_nodes_depth(cpl(&root, &id)).len();
                if was_cached && !is_active && at < cfg.k.min(1) {
                    bad = Some(("answering-node-not-activated", json!({"active_at_depth": at})));
                }
                if set(&[kad.active_nodes(), kad.cache_nodes()].concat()) != before_all {
                    bad = Some(("activation-changes-nodes", json!({})));
                }
                if set(&before_active).iter().any(|n| !set(&kad.active_nodes()).contains(n)) {
                    bad = Some(("activation-deactivates", json!({})));
                }
            } else if op < 90 {
                let dis = rng.gen::<bool>();
                what = if dis { "disconnect" } else { "remove" };
                let id = match rng.gen_range(0..6) {
                    0 => *pick(&mut rng, &announced),
                    1 => rnd_id(&mut rng),
                    _ => {
                        let all = [kad.active_nodes(), kad.cache_nodes()].concat();
                        if all.is_empty() {
                            continue;
                        }
                        *pick(&mut rng, &all)
                    }
                };
                if dis {
                    kad.node_disconnected(&id);
                } else {
                    kad.remove_node(&id);
                }
                mon.count("removals", 1);
                known.remove(&bytes(&id));
                let now = [kad.active_nodes(), kad.cache_nodes()].concat();
                if now.contains(&id) || kad.route_direct(&id).contains(&id) {
                    bad = Some(("removed-node-still-there", json!({"how": what})));
                }
                let mut want = before_all.clone();
                want.remove(&bytes(&id));
                // Merging buckets doesn't lose anybody.
                if set(&now) != want {
                    bad = Some(("removal-changes-others", json!({"how": what, "want": want.len(), "got": now.len()})));
                }
                if before_active.iter().any(|n| *n != id && !kad.active_nodes().contains(n)) {
                    bad = Some(("removal-deactivates-others", json!({"how": what})));
                }
            } else {
                what = "tick";
                let t = kad.tick();
                let now = set(&[kad.active_nodes(), kad.cache_nodes()].concat());
                let del = set(&t.deleted);
                if now.iter().any(|n| del.contains(n)) {
                    bad = Some(("deleted-node-still-there", json!({})));
                }
                if before_all.iter().any(|n| !now.contains(n) && !del.contains(n)) || now.iter().any(|n| !before_all.contains(n)) {
                    bad = Some(("tick-changes-others", json!({})));
                }
                if t.ping.iter().any(|n| !before_all.contains(&bytes(n))) {
                    bad = Some(("ping-to-unknown-node", json!({})));
                }
                for d in del {
                    known.remove(&d);
                }
            }
            mon.count("operations", 1);
            mon.count("routes", 3);
            if bad.is_none() {
                bad = table_ok(&kad, &known).or_else(|| route_ok(&mut rng, &kad));
            }
            if let Some((s, d)) = bad.take() {
                mon.violation(s, json!({"step": step, "op": what, "k": cfg.k, "detail": d}));
                break;
            }
            fp.push(kad.bucket_nodes().len() as u64);
        }
        if kad.bucket_nodes().len() > 1 {
            mon.count("split_tables", 1);
        }
        mon.count("oracle_checks", 1);
        mon.nontrivial(fp);
    }
    // The distance itself
    for i in 0..mon.n(2000, 50_000) {
        let Some(mut rng) = mon.begin(format!("depth{i}")) else {
            continue;
        };
        let a = rnd_id(&mut rng);
        let d = rng.gen_range(0..256usize);
        let b = if d == 255 { a } else { at_depth(&mut rng, &a, d) };
        mon.count("distances", 1);
        mon.check(
            KNode::get_depth(&a, &b) == d && KNode::get_depth(&b, &a) == d && cpl(&a, &b) == d,
            "wrong-depth",
            || json!({"want": d, "got": KNode::get_depth(&a, &b)}),
        );
    }
    mon.check_panics("kademlia");
}

// ---------------------------------------------------------------- K02
fn k02(mon: &mut Mon) {
    mon.rule("tables and networks with answering, slow and dead nodes over many ticks; distinct = (k, interval, timeout, nodes, how many died)");
    mon.require("ticks", 5000);
    mon.require("pings", 5000);
    mon.require("deaths", 500);
    mon.require("network_deaths", 20);
    for i in 0..mon.n(150, 3000) {
        let Some(mut rng) = mon.begin(format!("live{i}")) else {
            continue;
        };
        let root = rnd_id(&mut rng);
        let interval = rng.gen_range(1..6);
        let cfg = Config {
            root,
            k: rng.gen_range(1..5),
            ping_interval: interval,
            ping_timeout: interval + rng.gen_range(1..8),
        };
        let n = rng.gen_range(1..30);
        let maxd = *pick(&mut rng, &[0usize, 2, 6]);
        let nodes: Vec<NodeID> = (0..n)
            .map(|_| {
                let d = rng.gen_range(0..=maxd);
                at_depth(&mut rng, &root, d)
            })
            .collect();
        let mut alive: BTreeSet<[u8; 32]> = nodes.iter().filter(|_| rng.gen_bool(0.6)).map(bytes).collect();
        let mut kad = Kademlia::new(cfg);
        kad.add_nodes(nodes.clone());
        // (tick when it arrives, node)
        let mut answers: Vec<(u32, NodeID)> = vec![];
        // Last tick a node answered or has been seen first in its place
        let mut heard: HashMap<[u8; 32], u32> = HashMap::new();
        let slack = cfg.ping_timeout - cfg.ping_interval;
        let total = cfg.ping_timeout * 8 + 20;
        let mut bad: Option<Bad> = None;
        let mut died = 0;
        for t in 1..total {
            // Answers arrive
            let now: Vec<NodeID> = answers.iter().filter(|a| a.0 <= t).map(|a| a.1).collect();
            answers.retain(|a| a.0 > t);
            for id in now {
                // What it sent before it died can still arrive
                kad.node_active(&id);
                heard.insert(bytes(&id), t);
            }
            let active_before = kad.active_nodes();
            let before: Vec<NodeID> = [active_before.clone(), kad.cache_nodes()].concat();
            let ticks = kad.tick();
            mon.count("ticks", 1);
            mon.count("pings", ticks.ping.len() as u64);
            for id in &ticks.deleted {
                mon.count("deaths", 1);
                if alive.contains(&bytes(id)) {
                    bad = Some(("answering-node-deleted".into(), json!({"tick": t})));
                }
                if !before.contains(id) {
                    bad = Some(("unknown-node-deleted".into(), json!({"tick": t})));
                }
                heard.remove(&bytes(id));
            }
            for id in &ticks.ping {
                if !before.contains(id) {
                    bad = Some(("unknown-node-pinged".into(), json!({"tick": t})));
                }
                if alive.contains(&bytes(id)) {
                    answers.push((t + rng.gen_range(0..slack) + 1, *id));
                }
            }
            // An active node which was silent for the timeout is gone, one which was silent for
            // shorter is not; it gets its pings in time.
            for id in &active_before {
                let silent = t - heard.get(&bytes(id)).cloned().unwrap_or(t) + 1;
                let gone = !kad.active_nodes().contains(id);
                if heard.contains_key(&bytes(id)) && silent >= cfg.ping_timeout && !gone {
                    bad = Some(("silent-node-kept".into(), json!({"tick": t, "silent": silent, "timeout": cfg.ping_timeout})));
                }
                if heard.contains_key(&bytes(id)) && silent < cfg.ping_timeout && gone {
                    bad = Some(("node-deleted-too-early".into(), json!({"tick": t, "silent": silent, "timeout": cfg.ping_timeout})));
                }
                if heard.contains_key(&bytes(id)) && silent % cfg.ping_interval == 0 && !ticks.ping.contains(id) {
                    bad = Some(("ping-missing".into(), json!({"tick": t, "silent": silent, "interval": cfg.ping_interval})));
                }
            }
            if bad.is_some() {
                break;
            }
            if t < total / 2 && rng.gen_bool(0.1) && alive.len() > 0 {
                let d = *pick(&mut rng, &alive.iter().cloned().collect::<Vec<_>>());
                alive.remove(&d);
                died += 1;
            }
            // The nodes are announced again from time to time
            if t < total / 2 && rng.gen_bool(0.1) {
                kad.add_nodes(nodes.clone());
            }
        }
        if bad.is_none() {
            let dead: Vec<_> = kad.active_nodes().into_iter().filter(|n| !alive.contains(&bytes(n))).collect();
            if dead.len() > 0 {
                bad = Some(("dead-node-active".into(), json!({"nodes": dead.len()})));
            }
            // Each depth with answering nodes is served once they have been announced again.
            let living: Vec<NodeID> = nodes.iter().filter(|n| alive.contains(&bytes(n))).cloned().collect();
            let mut answers: Vec<(u32, NodeID)> = vec![];
            for t in 0..cfg.ping_timeout * 4 + 4 {
                for a in answers.iter().filter(|a| a.0 == t) {
                    kad.node_active(&a.1);
                }
                for id in kad.tick().ping {
                    if alive.contains(&bytes(&id)) {
                        answers.push((t + 1, id));
                    }
                }
                kad.add_nodes(living.clone());
            }
            for d in 0..=maxd {
                let want = nodes.iter().filter(|n| cpl(&root, n) == d && alive.contains(&bytes(n))).count().min(cfg.k);
                let got = kad.get_nodes_depth(d).iter().filter(|n| alive.contains(&bytes(n))).count();
                if got < want {
                    bad = Some(("answering-nodes-not-used".into(), json!({"depth": d, "want": want, "got": got, "k": cfg.k})));
                }
            }
        }
        mon.count("oracle_checks", 1);
        mon.nontrivial((cfg.k, interval, cfg.ping_timeout, n, died));
        if let Some((s, d)) = bad {
            mon.violation(&s, json!({"k": cfg.k, "interval": interval, "timeout": cfg.ping_timeout, "detail": d}));
        }
    }
    mon.check_panics("kademlia");

    let rt = rt_current();
    for i in 0..mon.n(40, 800) {
        let Some(mut rng) = mon.begin(format!("scripted{i}")) else {
            continue;
        };
        match drive(&rt, 120, k02_scripted(&mut rng)) {
            None => mon.violation("router-stuck", json!({})),
            Some((bad, pings)) => {
                mon.count("scripted_pings", pings);
                mon.nontrivial(("scripted", pings));
                if let Some((s, d)) = bad {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("router");
    }

    // The same with whole routers which ping each other
    let rt = rt_current();
    for i in 0..mon.n(12, 150) {
        let Some(mut rng) = mon.begin(format!("net{i}")) else {
            continue;
        };
        let n = rng.gen_range(3..12);
        let cfg = (rng.gen_range(1..3), 2u32, 5u32);
        let r = drive(&rt, 120, async {
            let mut bad: Vec<Bad> = vec![];
            let bits = rng.gen_range(2..5);
            let mut hub = Hub::new(&mut rng, n, cfg, bits).await;
            hub.introduce(&mut rng, 4).await;
            let mut deaths = 0;
            for _round in 0..2 {
                // Some die: either silently, or their connection is closed.
                let mut gone = vec![];
                for x in 0..n {
                    if !hub.down[x] && rng.gen_bool(0.3) {
                        hub.down[x] = true;
                        gone.push(x);
                    }
                }
                deaths += gone.len() as u64;
                let closed = rng.gen::<bool>();
                if closed {
                    for x in 0..n {
                        if !hub.down[x] {
                            hub.tell_connections(x, &gone).await;
                            let st = hub.nodes[x].dht.stats.borrow().clone();
                            if st.bucket_nodes.concat().iter().any(|id| gone.iter().any(|g| hub.nodes[*g].id == *id)) {
                                bad.push(("disconnected-node-active".into(), json!({"n": n, "buckets": st.bucket_nodes.len()})));
                            }
                        }
                    }
                }
                for _ in 0..cfg.2 + 2 {
                    hub.tick(&mut rng).await;
                }
                for x in 0..n {
                    if hub.down[x] {
                        continue;
                    }
                    let st = hub.nodes[x].dht.stats.borrow().clone();
                    let act = st.bucket_nodes.concat();
                    if act.len() != st.active {
                        bad.push(("active-count-differs".into(), json!({})));
                    }
                    if act.iter().any(|id| hub.is_down(id)) {
                        bad.push(("dead-node-active".into(), json!({"n": n, "closed": closed})));
                    }
                }
                // Dead nodes waiting in the caches go one after the other.
                hub.introduce(&mut rng, 3 * cfg.2 as usize).await;
                for x in 0..n {
                    if !hub.down[x] {
                        if let Some(d) = hub.missing_depth(x) {
                            bad.push(("answering-nodes-not-used".into(), json!({"n": n, "depth": d})));
                        }
                    }
                }
                // They come back: known again after a while
                for g in gone {
                    if rng.gen() {
                        hub.down[g] = false;
                    }
                }
                hub.introduce(&mut rng, 3 * cfg.2 as usize).await;
                for x in 0..n {
                    if !hub.down[x] {
                        if let Some(d) = hub.missing_depth(x) {
                            bad.push(("returned-nodes-not-used".into(), json!({"n": n, "depth": d})));
                        }
                    }
                }
            }
            (bad, deaths)
        });
        match r {
            None => mon.violation("router-stuck", json!({"n": n})),
            Some((bad, deaths)) => {
                mon.count("network_deaths", deaths);
                mon.count("oracle_checks", 1);
                mon.nontrivial(("net", n, cfg, deaths));
                for (s, d) in bad.into_iter().take(1) {
                    mon.violation(&s, d);
                }
            }
        }
        mon.check_panics("router");
    }
}

/// The messages between the routers.
#[derive(serde::Serialize, serde::Deserialize, Debug)]
enum Wire {
    Ping,
    Pong,
    ConnectedIDsRequest,
    ConnectedIDsReply(Vec<NodeID>),
    Neighbour(NetworkWrapper),
    Closest(NodeID, U256, NetworkWrapper),
    Direct(NodeID, NodeID, NetworkWrapper),
}

fn wire(w: &Wire) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml("DHTRouter", w).unwrap()
}

/// One router among scripted nodes: some answer pings, some only send other messages, some stop.
async fn k02_scripted(rng: &mut StdRng) -> (Option<Bad>, u64) {
    let interval = rng.gen_range(2..5u32);
    let cfg = Config {
        root: rnd_id(rng),
        k: rng.gen_range(1..4),
        ping_interval: interval,
        ping_timeout: interval + rng.gen_range(2..6),
    };
    let timer = Timer::simul();
    let mut router: BrokerRouter = Broker::new();
    let mut to_net = router.get_tap_in().await.unwrap().0;
    let mut dht = DHTRouter::start(cfg, timer.broker.clone(), router.clone()).await.unwrap();
    let mut tbr = timer.broker.clone();
    let maxd = rng.gen_range(1..5);
    // 0: answers, 1: talks, 2: silent, 3: stops after half of the time
    let many = match rng.gen_bool(0.3) {
        true => rng.gen_range(20..50),
        false => rng.gen_range(4..16),
    };
    let nodes: Vec<(NodeID, usize)> = (0..many)
        .map(|_| {
            let d = rng.gen_range(0..=maxd);
            (at_depth(rng, &cfg.root, d), rng.gen_range(0..4))
        })
        .collect();
    let total = 12 * cfg.ping_timeout + 10;
    let half = total / 2;
    let mut pinged: BTreeSet<[u8; 32]> = BTreeSet::new();
    // Those which did not answer a ping yet
    let mut asked: BTreeSet<[u8; 32]> = BTreeSet::new();
    let mut pings = 0;
    for t in 0..total {
        if t % (interval + 1) == 0 {
            let infos = nodes
                .iter()
                .filter(|n| n.1 < 2 || t < half)
                .map(|n| NodeInfo::new_from_id(n.0))
                .collect::<Vec<_>>();
            router.emit_msg_out(RouterOut::NodeInfoAvailable(infos)).unwrap();
        }
        for (id, kind) in &nodes {
            if *kind == 1 {
                let w = match rng.gen_range(0..3) {
                    0 => wire(&Wire::Ping),
                    1 => wire(&Wire::Neighbour(NetworkWrapper { module: "x".into(), msg: "y".into() })),
                    _ => wire(&Wire::ConnectedIDsRequest),
                };
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(*id, w)).unwrap();
            }
        }
        router.settle(vec![]).await.unwrap();
        dht.broker.settle(vec![]).await.unwrap();
        let before = dht.stats.borrow().all_nodes.clone();
        tbr.emit_msg_out(TimerMessage::Minute).unwrap();
        tbr.settle(vec![]).await.unwrap();
        dht.broker.settle(vec![]).await.unwrap();
        router.settle(vec![]).await.unwrap();
        let after = dht.stats.borrow().all_nodes.clone();
        for (id, kind) in nodes.iter().filter(|n| before.contains(&n.0) && !after.contains(&n.0)) {
            let v = json!({"tick": t, "kind": kind, "nodes": nodes.len(), "interval": interval, "timeout": cfg.ping_timeout});
            if *kind < 2 {
                return (Some(("answering-node-dropped".into(), v)), pings);
            }
            if !asked.remove(&bytes(id)) {
                return (Some(("dropped-without-ping".into(), v)), pings);
            }
        }
        if t == half {
            // Those which stop from now on and are used must be asked before they are dropped.
            let act = dht.stats.borrow().bucket_nodes.concat();
            pinged.extend(nodes.iter().filter(|n| n.1 != 3 || !act.contains(&n.0)).map(|n| bytes(&n.0)));
        }
        while let Ok(RouterIn::NetworkWrapperToNetwork(to, w)) = to_net.try_recv() {
            if matches!(w.unwrap_yaml("DHTRouter"), Some(Wire::Ping)) {
                pings += 1;
                asked.insert(bytes(&to));
                if t >= half {
                    pinged.insert(bytes(&to));
                }
                match nodes.iter().find(|n| n.0 == to) {
                    None => return (Some(("unknown-node-pinged".into(), json!({}))), pings),
                    Some((id, kind)) => {
                        if *kind == 0 || *kind == 3 && t < half {
                            asked.remove(&bytes(&to));
                            router
                                .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(*id, wire(&Wire::Pong)))
                                .unwrap();
                        }
                    }
                }
            }
        }
        router.settle(vec![]).await.unwrap();
        dht.broker.settle(vec![]).await.unwrap();
    }
    let v = json!({"k": cfg.k, "interval": interval, "timeout": cfg.ping_timeout, "nodes": nodes.len()});
    let act = dht.stats.borrow().bucket_nodes.concat();
    if nodes.iter().any(|n| n.1 >= 2 && act.contains(&n.0)) {
        return (Some(("silent-node-kept".into(), v)), pings);
    }
    if nodes.iter().any(|n| !pinged.contains(&bytes(&n.0))) {
        return (Some(("dropped-without-ping".into(), v)), pings);
    }
    for d in 0..=maxd {
        let want = nodes.iter().filter(|n| n.1 < 2 && cpl(&cfg.root, &n.0) == d).count().min(cfg.k);
        let got = act.iter().filter(|n| cpl(&cfg.root, n) == d).count();
        if got < want {
            return (Some(("living-nodes-not-used".into(), json!({"depth": d, "want": want, "got": got, "in": v}))), pings);
        }
    }
    // New nodes are known, from wherever they come.
    for how in 0..4 {
        let new: Vec<NodeID> = (0..rng.gen_range(2..5)).map(|i| at_depth(rng, &cfg.root, 20 + 5 * how + i)).collect();
        match how {
            0 => router.emit_msg_out(RouterOut::NodeIDsConnected(new.clone().into())).unwrap(),
            1 => new.iter().for_each(|n| router.emit_msg_out(RouterOut::Connected(*n)).unwrap()),
            2 => router
                .emit_msg_out(RouterOut::NodeInfoAvailable(new.iter().map(|n| NodeInfo::new_from_id(*n)).collect()))
                .unwrap(),
            _ => {
                let from = nodes[0].0;
                let reply = wire(&Wire::ConnectedIDsReply(new.clone()));
                router.emit_msg_out(RouterOut::NetworkWrapperFromNetwork(from, reply)).unwrap();
            }
        }
        router.settle(vec![]).await.unwrap();
        dht.broker.settle(vec![]).await.unwrap();
        let all = dht.stats.borrow().all_nodes.clone();
        if new.iter().any(|n| !all.contains(n)) {
            return (Some(("announced-node-unknown".into(), json!({"how": how}))), pings);
        }
    }
    (None, pings)
}

// ---------------------------------------------------------------- K03
struct RNode {
    id: NodeID,
    dht: DHTRouter,
    router: BrokerRouter,
    to_net: UnboundedReceiver<RouterIn>,
    out: UnboundedReceiver<DHTRouterOut>,
}

/// DHTRouters joined by a network which delivers in any order.
struct Hub {
    nodes: Vec<RNode>,
    timer: Timer,
    down: Vec<bool>,
    queue: VecDeque<(NodeID, NodeID, NetworkWrapper)>,
    hops: u64,
    lost: u64,
}

impl Hub {
    async fn new(rng: &mut StdRng, n: usize, (k, ping_interval, ping_timeout): (usize, u32, u32), bits: usize) -> Self {
        let timer = Timer::simul();
        let base = rnd_id(rng);
        let mut nodes = vec![];
        for _ in 0..n {
            // Clustered ids make deep tables
            let id = match rng.gen_range(0..3) {
                0 => {
                    let d = rng.gen_range(0..bits * 2);
                    at_depth(rng, &base, d)
                }
                _ => rnd_id(rng),
            };
            let mut router: BrokerRouter = Broker::new();
            let to_net = router.get_tap_in().await.unwrap().0;
            let mut dht = DHTRouter::start(
                Config {
                    root: id,
                    k,
                    ping_interval,
                    ping_timeout,
                },
                timer.broker.clone(),
                router.clone(),
            )
            .await
            .unwrap();
            let out = dht.broker.get_tap_out().await.unwrap().0;
            nodes.push(RNode {
                id,
                dht,
                router,
                to_net,
                out,
            });
        }
        Self {
            down: vec![false; n],
            nodes,
            timer,
            queue: VecDeque::new(),
            hops: 0,
            lost: 0,
        }
    }

    fn pos(&self, id: &NodeID) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == *id)
    }

    fn is_down(&self, id: &NodeID) -> bool {
        self.pos(id).map(|p| self.down[p]).unwrap_or(true)
    }

    async fn collect(&mut self, i: usize) {
        let n = &mut self.nodes[i];
        n.dht.broker.settle(vec![]).await.unwrap();
        n.router.settle(vec![]).await.unwrap();
        while let Ok(RouterIn::NetworkWrapperToNetwork(to, w)) = n.to_net.try_recv() {
            self.queue.push_back((n.id, to, w));
        }
    }

    /// Delivers until nothing is left; false if it never ends.
    async fn pump(&mut self, rng: &mut StdRng, max: u64) -> bool {
        for i in 0..self.nodes.len() {
            self.collect(i).await;
        }
        let start = self.hops;
        while self.queue.len() > 0 {
            let p = rng.gen_range(0..self.queue.len());
            let (from, to, w) = self.queue.remove(p).unwrap();
            self.hops += 1;
            if self.hops - start > max {
                self.queue.clear();
                return false;
            }
            match self.pos(&to) {
                Some(i) if !self.down[i] && !self.is_down(&from) => {
                    self.nodes[i]
                        .router
                        .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(from, w))
                        .unwrap();
                    self.collect(i).await;
                }
                _ => self.lost += 1,
            }
        }
        true
    }

    async fn tick(&mut self, rng: &mut StdRng) {
        self.timer.broker.emit_msg_out(TimerMessage::Minute).unwrap();
        self.timer.broker.settle(vec![]).await.unwrap();
        assert!(self.pump(rng, 1_000_000).await);
    }

    async fn introduce(&mut self, rng: &mut StdRng, ticks: usize) {
        for i in 0..self.nodes.len() {
            let infos: Vec<NodeInfo> = self
                .nodes
                .iter()
                .filter(|n| !self.is_down(&n.id))
                .map(|n| NodeInfo::new_from_id(n.id))
                .collect();
            self.nodes[i].router.emit_msg_out(RouterOut::NodeInfoAvailable(infos)).unwrap();
        }
        for _ in 0..ticks {
            self.tick(rng).await;
        }
    }

    /// The messages which come when connections close.
    async fn tell_connections(&mut self, x: usize, gone: &[usize]) {
        let connected: Vec<NodeID> = (0..self.nodes.len())
            .filter(|i| !self.down[*i] && *i != x)
            .map(|i| self.nodes[i].id)
            .collect();
        for g in gone {
            let id = self.nodes[*g].id;
            for m in [RouterOut::NodeIDsConnected(connected.clone().into()), RouterOut::Disconnected(id)] {
                self.nodes[x].router.emit_msg_out(m).unwrap();
            }
        }
        self.collect(x).await;
    }

    /// A depth where others exist, but where the node has no active one.
    fn missing_depth(&self, x: usize) -> Option<usize> {
        let st = self.nodes[x].dht.stats.borrow().clone();
        let act = st.bucket_nodes.concat();
        let me = self.nodes[x].id;
        (0..self.nodes.len())
            .filter(|i| *i != x && !self.down[*i])
            .map(|i| cpl(&me, &self.nodes[i].id))
            .find(|d| !act.iter().any(|a| cpl(&me, a) == *d))
    }

    fn outs(&mut self) -> Vec<(usize, DHTRouterOut)> {
        let mut ret = vec![];
        for (i, n) in self.nodes.iter_mut().enumerate() {
            while let Ok(m) = n.out.try_recv() {
                if !matches!(m, DHTRouterOut::NodeList(_)) {
                    ret.push((i, m));
                }
            }
        }
        ret
    }
}

fn test_msg(rng: &mut StdRng, i: usize) -> NetworkWrapper {
    let len = rng.gen_range(0..30);
    NetworkWrapper {
        module: pick(rng, &["Test", "DHTRouter", "", "\"x: 1\n"]).to_string(),
        msg: format!("{i} {}", rnd_string(rng, len)),
    }
}

fn k03(mon: &mut Mon) {
    mon.rule("messages of all kinds in networks of routers with full, partial and hostile views; distinct = (nodes, k, kind, hops)");
    mon.require("direct", 200);
    mon.require("closest", 200);
    mon.require("hops", 500);
    mon.require("multi_hop", 30);
    mon.require("partial_messages", 200);
    mon.require("hostile_messages", 100);
    let rt = rt_current();
    for i in 0..mon.n(24, 300) {
        let Some(mut rng) = mon.begin(format!("full{i}")) else {
            continue;
        };
        let n = rng.gen_range(2..22);
        let k = rng.gen_range(1..4);
        let r = drive(&rt, 200, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut fps = vec![];
            let bits = rng.gen_range(1..8);
            let mut hub = Hub::new(&mut rng, n, (k, 10, 30), bits).await;
            hub.introduce(&mut rng, 3).await;
            if rng.gen() {
                // Who is connected directly is an additional shortcut
                for x in 0..n {
                    let con: Vec<NodeID> = (0..n).filter(|y| *y != x && rng.gen_bool(0.3)).map(|y| hub.nodes[y].id).collect();
                    hub.nodes[x].router.emit_msg_out(RouterOut::NodeIDsConnected(con.into())).unwrap();
                }
                hub.tick(&mut rng).await;
            }
            for x in 0..n {
                if let Some(d) = hub.missing_depth(x) {
                    bad.push(("table-incomplete".into(), json!({"n": n, "k": k, "depth": d})));
                }
            }
            hub.outs();
            for m in 0..40 {
                if bad.len() > 0 {
                    break;
                }
                let a = rng.gen_range(0..n);
                let mut b = rng.gen_range(0..n);
                if a == b {
                    b = (a + 1) % n;
                }
                let (ida, idb) = (hub.nodes[a].id, hub.nodes[b].id);
                let msg = test_msg(&mut rng, m);
                let h0 = hub.hops;
                let kind = rng.gen_range(0..6);
                let key = if kind == 2 {
                    match rng.gen_range(0..2) {
                        0 => rnd_id(&mut rng),
                        _ => {
                            // Close to a node
                            let d = rng.gen_range(0..40);
                            at_depth(&mut rng, &idb, d)
                        }
                    }
                } else {
                    idb
                };
                let dmax = hub.nodes.iter().map(|x| cpl(&x.id, &key)).max().unwrap();
                let (before_active, input) = match kind {
                    0 | 1 => (vec![], DHTRouterIn::MessageDirect(key, msg.clone())),
                    2 | 3 => (vec![], DHTRouterIn::MessageClosest(key, msg.clone())),
                    4 => (
                        hub.nodes[a].dht.stats.borrow().bucket_nodes.concat(),
                        DHTRouterIn::MessageBroadcast(msg.clone()),
                    ),
                    _ => (vec![], DHTRouterIn::MessageNeighbour(idb, msg.clone())),
                };
                hub.nodes[a].dht.broker.emit_msg_in(input).unwrap();
                if !hub.pump(&mut rng, 1000).await {
                    bad.push(("routing-never-ends".into(), json!({"n": n, "k": k, "kind": kind})));
                    continue;
                }
                let hops = hub.hops - h0;
                *evs.entry("hops").or_default() += hops;
                if hops > 1 && kind < 4 {
                    *evs.entry("multi_hop").or_default() += 1;
                }
                fps.push(mon::hash64(&(n, k, kind, hops)));
                let outs = hub.outs();
                let ctx = json!({"n": n, "k": k, "from": a, "to": b, "hops": hops,
                    "got": outs.iter().map(|(i, o)| format!("{i}: {}", format!("{o:?}").chars().take(30).collect::<String>())).collect::<Vec<_>>()});
                match kind {
                    0 | 1 => {
                        *evs.entry("direct").or_default() += 1;
                        match &outs[..] {
                            [(i, DHTRouterOut::MessageDest(o, _, m))] if *i == b && *o == ida && *m == msg => {}
                            _ => bad.push(("direct-message".into(), ctx)),
                        }
                    }
                    2 | 3 => {
                        *evs.entry("closest").or_default() += 1;
                        // The path it took, as it has been told
                        let mut path: Vec<(NodeID, NodeID, usize)> = vec![];
                        let mut ends = vec![];
                        for (i, o) in &outs {
                            match o {
                                DHTRouterOut::MessageRouting(o, l, nx, ky, m) => {
                                    if *o != ida || *ky != key || *m != msg {
                                        bad.push(("routing-report".into(), ctx.clone()));
                                    }
                                    path.push((*l, *nx, *i));
                                }
                                DHTRouterOut::MessageDest(o, l, m) => {
                                    if *o != ida || *m != msg || hub.nodes[*i].id != key {
                                        bad.push(("closest-message".into(), ctx.clone()));
                                    }
                                    ends.push((*i, *l));
                                }
                                DHTRouterOut::MessageClosest(o, l, ky, m) => {
                                    if *o != ida || *m != msg || *ky != key || hub.nodes[*i].id == key {
                                        bad.push(("closest-message".into(), ctx.clone()));
                                    }
                                    ends.push((*i, *l));
                                }
                                _ => bad.push(("unexpected-message".into(), ctx.clone())),
                            }
                        }
                        if cpl(&ida, &key) == dmax && kind == 2 {
                            // Nobody is closer than the sender: it can end with one as close.
                            if ends.iter().any(|(i, _)| cpl(&hub.nodes[*i].id, &key) != dmax) || ends.len() > 1 {
                                bad.push(("closest-not-reached".into(), ctx));
                            }
                        } else if ends.len() != 1 || cpl(&hub.nodes[ends[0].0].id, &key) != dmax || (kind == 3 && ends[0].0 != b) {
                            bad.push(("closest-not-reached".into(), ctx));
                        } else {
                            // Every node on the way tells about it, in a gapless chain.
                            let mut last = ida;
                            let mut left = path.clone();
                            let mut ok = left.len() as u64 + 1 == hops;
                            let mut at = None;
                            while left.len() > 0 && ok {
                                if let Some(p) = left.iter().position(|(l, _, i)| *l == last && at.map(|a| a == *i).unwrap_or(true)) {
                                    let (_, nx, i) = left.remove(p);
                                    last = hub.nodes[i].id;
                                    at = hub.pos(&nx);
                                    ok &= at.is_some();
                                } else {
                                    ok = false;
                                }
                            }
                            if !ok || ends[0].1 != last {
                                bad.push(("path-not-reported".into(), ctx));
                            }
                        }
                    }
                    4 => {
                        *evs.entry("broadcast").or_default() += 1;
                        let got: Vec<NodeID> = outs
                            .iter()
                            .filter_map(|(i, o)| match o {
                                DHTRouterOut::MessageNeighbour(f, m) if *f == ida && *m == msg => Some(hub.nodes[*i].id),
                                _ => None,
                            })
                            .collect();
                        if set(&got) != set(&before_active) || got.len() != outs.len() || got.len() != before_active.len() {
                            bad.push(("broadcast".into(), ctx));
                        }
                    }
                    _ => {
                        *evs.entry("neighbour").or_default() += 1;
                        match &outs[..] {
                            [(i, DHTRouterOut::MessageNeighbour(f, m))] if *i == b && *f == ida && *m == msg => {}
                            _ => bad.push(("neighbour-message".into(), ctx)),
                        }
                    }
                }
            }
            (bad, evs, fps)
        });
        finish(mon, r);
    }

    // Nodes which know only some others, and hostile nodes
    for i in 0..mon.n(24, 300) {
        let Some(mut rng) = mon.begin(format!("partial{i}")) else {
            continue;
        };
        let n = rng.gen_range(3..20);
        let k = rng.gen_range(1..4);
        let r = drive(&rt, 200, async {
            let mut bad: Vec<Bad> = vec![];
            let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut fps = vec![];
            let mut hub = Hub::new(&mut rng, n, (k, 10, 30), 6).await;
            let dens = rng.gen_range(0.1..0.9);
            let pong = NetworkWrapper {
                module: "DHTRouter".into(),
                msg: "Pong".into(),
            };
            for x in 0..n {
                let some: Vec<NodeID> = (0..n).filter(|y| *y != x && rng.gen_bool(dens)).map(|y| hub.nodes[y].id).collect();
                hub.nodes[x]
                    .router
                    .emit_msg_out(RouterOut::NodeInfoAvailable(some.iter().map(|i| NodeInfo::new_from_id(*i)).collect()))
                    .unwrap();
                for s in some {
                    hub.nodes[x]
                        .router
                        .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(s, pong.clone()))
                        .unwrap();
                }
                if rng.gen_bool(0.1) {
                    hub.down[x] = true;
                }
            }
            hub.pump(&mut rng, 100_000).await;
            hub.outs();
            for m in 0..30 {
                let a = rng.gen_range(0..n);
                if hub.down[a] {
                    continue;
                }
                let msg = test_msg(&mut rng, m);
                let key = if rng.gen() { rnd_id(&mut rng) } else { hub.nodes[rng.gen_range(0..n)].id };
                let direct = rng.gen::<bool>();
                let hostile = rng.gen_bool(0.3);
                let h0 = hub.hops;
                let mut orig = hub.nodes[a].id;
                if hostile {
                    // A made-up message which claims to come from anybody
                    orig = if rng.gen() { rnd_id(&mut rng) } else { hub.nodes[rng.gen_range(0..n)].id };
                    let from = if rng.gen() { rnd_id(&mut rng) } else { hub.nodes[rng.gen_range(0..n)].id };
                    let t = serde_yaml::to_string(&if direct {
                        flmodules::dht_router::intern::ModuleMessage::Direct(orig, key, msg.clone())
                    } else {
                        flmodules::dht_router::intern::ModuleMessage::Closest(orig, key, msg.clone())
                    })
                    .unwrap();
                    hub.nodes[a]
                        .router
                        .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(
                            from,
                            NetworkWrapper {
                                module: "DHTRouter".into(),
                                msg: t,
                            },
                        ))
                        .unwrap();
                    // and something unreadable
                    let len = rng.gen_range(0..30);
                    let garbage = NetworkWrapper {
                        module: "DHTRouter".into(),
                        msg: match rng.gen_range(0..4) {
                            0 => "Direct: [1, 2]".into(),
                            1 => "ConnectedIDsReply:\n- zz".into(),
                            2 => format!("Closest: {}", rnd_string(&mut rng, len)),
                            _ => rnd_string(&mut rng, len),
                        },
                    };
                    let from = rnd_id(&mut rng);
                    hub.nodes[a]
                        .router
                        .emit_msg_out(RouterOut::NetworkWrapperFromNetwork(from, garbage))
                        .unwrap();
                    *evs.entry("hostile_messages").or_default() += 1;
                } else {
                    let inp = if direct {
                        DHTRouterIn::MessageDirect(key, msg.clone())
                    } else {
                        DHTRouterIn::MessageClosest(key, msg.clone())
                    };
                    hub.nodes[a].dht.broker.emit_msg_in(inp).unwrap();
                    *evs.entry("partial_messages").or_default() += 1;
                }
                if !hub.pump(&mut rng, 600).await {
                    bad.push(("routing-never-ends".into(), json!({"n": n, "k": k, "direct": direct, "hostile": hostile})));
                    break;
                }
                let hops = hub.hops - h0;
                *evs.entry("hops").or_default() += hops;
                fps.push(mon::hash64(&("p", n, k, direct, hops)));
                let outs = hub.outs();
                let mut ends = 0;
                for (i, o) in &outs {
                    let ok = match o {
                        DHTRouterOut::MessageDest(o, _, m) => {
                            ends += 1;
                            *o == orig && *m == msg && hub.nodes[*i].id == key
                        }
                        DHTRouterOut::MessageClosest(o, _, ky, m) => {
                            ends += 1;
                            !direct && *o == orig && *m == msg && *ky == key && hub.nodes[*i].id != key
                        }
                        DHTRouterOut::MessageRouting(o, _, _, ky, m) => !direct && *o == orig && *ky == key && *m == msg,
                        _ => false,
                    };
                    if !ok {
                        bad.push(("wrong-delivery".into(), json!({"n": n, "k": k, "direct": direct, "hostile": hostile})));
                    }
                }
                if ends > 1 {
                    bad.push(("delivered-twice".into(), json!({"n": n, "k": k, "direct": direct, "ends": ends})));
                }
                if bad.len() > 0 {
                    break;
                }
            }
            (bad, evs, fps)
        });
        finish(mon, r);
    }
}

fn finish(mon: &mut Mon, r: Option<(Vec<Bad>, BTreeMap<&'static str, u64>, Vec<u64>)>) {
    match r {
        None => mon.violation("router-stuck", json!({})),
        Some((bad, evs, fps)) => {
            for (e, n) in evs {
                mon.count(e, n);
            }
            for f in fps {
                mon.nontrivial(f);
            }
            mon.count("oracle_checks", 1);
            for (s, d) in bad.into_iter().take(2) {
                mon.violation(&s, d);
            }
        }
    }
    mon.check_panics("router");
}

fn main() {
    main_with(|mon, id| match id {
        "K01" => k01(mon),
        "K02" => k02(mon),
        "K03" => k03(mon),
        _ => panic!("unknown property {id}"),
    });
    let _ = <[u8]>::choose::<StdRng>;
}
