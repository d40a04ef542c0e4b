//! B01..B04: the message broker.
use std::{
    collections::{BTreeMap, HashMap},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use async_trait::async_trait;
use flarch::broker::{Broker, Destination, SubsystemHandler};
use mon::{drive, main_with, rt_current, rt_multi, Mon};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::json;
use tokio::sync::mpsc::UnboundedReceiver;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct In {
    src: u32,
    seq: u32,
    path: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Out {
    src: u32,
    seq: u32,
    path: Vec<u8>,
}
fn i(src: u32, seq: u32) -> In {
    In {
        src,
        seq,
        path: vec![],
    }
}
fn o(src: u32, seq: u32) -> Out {
    Out {
        src,
        seq,
        path: vec![],
    }
}
const END: u32 = u32::MAX;

/// Records all inputs, and answers to each with `reply` outputs.
struct Rec {
    id: u32,
    reply: u32,
    seen: Arc<Mutex<Vec<In>>>,
    dropped: Arc<AtomicBool>,
    jitter: u32,
    rng: StdRng,
}
impl Rec {
    fn new(id: u32, reply: u32, jitter: u32, seed: u64) -> Self {
        Self {
            id,
            reply,
            seen: Default::default(),
            dropped: Default::default(),
            jitter,
            rng: StdRng::seed_from_u64(seed),
        }
    }
}
impl Drop for Rec {
    fn drop(&mut self) {
        self.dropped.store(true, Ordering::SeqCst);
    }
}
#[async_trait]
impl SubsystemHandler<In, Out> for Rec {
    async fn messages(&mut self, msgs: Vec<In>) -> Vec<Out> {
        let mut out = vec![];
        for m in msgs {
            if self.jitter > 0 {
                match self.rng.gen_range(0..self.jitter + 4) {
                    0 => tokio::task::yield_now().await,
                    1 => tokio::time::sleep(Duration::from_micros(self.rng.gen_range(0..800))).await,
                    _ => (),
                }
            }
            for r in 0..self.reply {
                if m.src != END {
                    out.push(Out {
                        src: 1000 * (self.id + 1) + m.src,
                        seq: m.seq * self.reply + r,
                        path: m.path.clone(),
                    });
                }
            }
            self.seen.lock().unwrap().push(m);
        }
        out
    }
}

async fn jitter(rng: &mut StdRng, lvl: u32) {
    match rng.gen_range(0..10 + lvl) {
        0 => tokio::task::yield_now().await,
        1 => tokio::time::sleep(Duration::from_micros(rng.gen_range(0..500))).await,
        _ => (),
    }
}

// Reads until the end marker arrived, or the broker closed, or 30s passed.
async fn until_end<T>(rx: &mut UnboundedReceiver<T>, is_end: impl Fn(&T) -> bool) -> (Vec<T>, bool) {
    let mut ret = vec![];
    loop {
        match tokio::time::timeout(Duration::from_secs(30), rx.recv()).await {
            Ok(Some(m)) => {
                if is_end(&m) {
                    return (ret, true);
                }
                ret.push(m);
            }
            _ => return (ret, false),
        }
    }
}

fn rt_for(rng: &mut StdRng) -> tokio::runtime::Runtime {
    match rng.gen_range(0..5) {
        0 => rt_current(),
        1 => rt_multi(1),
        2 => rt_multi(2),
        3 => rt_multi(4),
        _ => rt_multi(8),
    }
}

// A subscriber's view must hold for every source exactly 0..n in order.
fn check_seq(
    mon: &mut Mon,
    what: &str,
    got: &[(u32, u32)],
    want: &BTreeMap<u32, u32>,
) -> bool {
    let mut next: BTreeMap<u32, u32> = BTreeMap::new();
    for (src, seq) in got {
        let n = next.entry(*src).or_insert(0);
        if *seq != *n {
            let kind = if *seq < *n { "duplicate-or-reordered" } else { "lost-or-reordered" };
            let (s, q, e) = (*src, *seq, *n);
            return mon.check(false, &format!("delivery:{what}:{kind}"), || {
                json!({"subscriber": what, "source": s, "got_seq": q, "expected_seq": e})
            });
        }
        *n += 1;
    }
    let ok = next.iter().filter(|(_, n)| **n > 0).map(|(a, b)| (*a, *b)).collect::<BTreeMap<_, _>>()
        == want.iter().filter(|(_, n)| **n > 0).map(|(a, b)| (*a, *b)).collect::<BTreeMap<_, _>>();
    mon.check(ok, &format!("delivery:{what}:missing"), || {
        json!({"subscriber": what, "received": next, "emitted": want})
    })
}

fn b01(mon: &mut Mon) {
    mon.rule("a case is one broker with 1-6 concurrent producers (clones in own tasks, 1-8 workers), taps in both directions, replying handlers, \
              subscribers that come and go and taps whose receiver is dropped; non-trivial if at least 2 sources interleaved in the observed order; fingerprint is the observed global order");
    mon.require("deliveries", 10_000);
    for c in 0..mon.n(260, 4000) {
        let Some(mut rng) = mon.begin(format!("b01-{c}")) else { continue };
        let rt = rt_for(&mut rng);
        let r = drive(&rt, 120, b01_case(mon, &mut rng));
        if r.is_none() {
            mon.violation("delivery:stuck", json!("the case didn't end in 120s"));
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
}

async fn b01_case(mon: &mut Mon, rng: &mut StdRng) {
    let mut b: Broker<In, Out> = Broker::new();
    let n_h = rng.gen_range(0..4u32);
    let lvl = rng.gen_range(0..6);
    let mut recs = vec![];
    let mut reply_total = vec![];
    for h in 0..n_h {
        let reply = rng.gen_range(0..3);
        let rec = Rec::new(h, reply, if rng.gen() { lvl } else { 0 }, rng.gen());
        recs.push(rec.seen.clone());
        reply_total.push(reply);
        b.add_handler(Box::new(rec)).await.unwrap();
    }
    // Taps whose receivers are dropped must not hurt the others.
    let n_bad = rng.gen_range(0..3);
    let mut bad_in = vec![];
    let mut bad_out = vec![];
    let mut taps_in = vec![];
    let mut taps_out = vec![];
    let n_t = rng.gen_range(1..4);
    let mut slots: Vec<u8> = vec![];
    slots.extend(vec![0; n_t]);
    slots.extend(vec![1; n_bad]);
    use rand::seq::SliceRandom;
    slots.shuffle(rng);
    for s in slots {
        let ti = b.get_tap_in().await.unwrap();
        let to = b.get_tap_out().await.unwrap();
        if s == 0 {
            taps_in.push(ti.0);
            taps_out.push(to.0);
        } else {
            bad_in.push(ti.0);
            bad_out.push(to.0);
        }
    }
    let (sync_in, _) = b.get_tap_in_sync().await.unwrap();
    let (sync_out, _) = b.get_tap_out_sync().await.unwrap();

    // Many other subscribers came and went.
    if rng.gen_range(0..8) == 0 {
        let n = rng.gen_range(10..400);
        for k in 0..n {
            let id = if rng.gen() { b.get_tap_in().await.unwrap().1 } else { b.get_tap_out().await.unwrap().1 };
            if k % 3 == 0 {
                b.remove_subsystem(id).await.unwrap();
            }
        }
        mon.count("former_subscribers", n);
    }
    let producers = rng.gen_range(1..7u32);
    let per = rng.gen_range(1..40u32);
    let mut tasks = vec![];
    for p in 0..producers {
        let mut bc = b.clone();
        let mut prng = StdRng::seed_from_u64(rng.gen());
        tasks.push(tokio::spawn(async move {
            let (mut ni, mut no, mut nn) = (0, 0, 0);
            for _ in 0..per {
                match prng.gen_range(0..13) {
                    10 => {
                        // Only for the handlers and the links, so nobody sees it here.
                        bc.emit_msg_out_dest(Destination::NoTap, o(200 + p, nn)).unwrap();
                    }
                    11 => {
                        // Comes from other brokers
                        let trail = (0..prng.gen_range(0..12)).map(|_| flarch::nodeids::U256::rnd()).collect();
                        bc.emit_msg_in_dest(Destination::Forwarded(trail), i(p, ni)).unwrap();
                        ni += 1;
                    }
                    12 => {
                        let trail = (0..prng.gen_range(0..12)).map(|_| flarch::nodeids::U256::rnd()).collect();
                        bc.emit_msg_out_dest(Destination::Forwarded(trail), o(p, no)).unwrap();
                        no += 1;
                    }
                    0..=4 => {
                        bc.emit_msg_in(i(p, ni)).unwrap();
                        ni += 1;
                    }
                    5..=6 => {
                        bc.emit_msg_out(o(p, no)).unwrap();
                        no += 1;
                    }
                    7 => {
                        bc.settle_msg_in(i(p, ni)).await.unwrap();
                        ni += 1;
                    }
                    8 => {
                        bc.settle_msg_out(o(p, no)).await.unwrap();
                        no += 1;
                    }
                    _ => {
                        bc.emit_msg_in_dest(Destination::NoTap, i(100 + p, nn)).unwrap();
                        nn += 1;
                    }
                }
                // Cloning in the middle of the traffic
                if prng.gen_range(0..8) == 0 {
                    bc = bc.clone();
                }
                jitter(&mut prng, lvl).await;
            }
            (ni, no, nn)
        }));
    }
    // Dynamic subscriber
    let mut dynb = b.clone();
    let mut drng = StdRng::seed_from_u64(rng.gen());
    let dyn_task = tokio::spawn(async move {
        let mut seq = 0;
        let mut errs: Vec<(String, serde_json::Value)> = vec![];
        for round in 0..4 {
            for _ in 0..drng.gen_range(0..5) {
                dynb.emit_msg_in(i(50, seq)).unwrap();
                seq += 1;
            }
            let first = seq;
            let (mut rx, id) = dynb.get_tap_in().await.unwrap();
            for _ in 0..drng.gen_range(0..6) {
                dynb.emit_msg_in(i(50, seq)).unwrap();
                seq += 1;
                jitter(&mut drng, lvl).await;
            }
            let last = seq;
            if round % 2 == 0 {
                dynb.remove_subsystem(id).await.unwrap();
            } else {
                // Unsubscribing by dropping, after what has been sent was seen.
                dynb.settle(vec![]).await.unwrap();
            }
            for _ in 0..drng.gen_range(0..4) {
                dynb.emit_msg_in(i(50, seq)).unwrap();
                seq += 1;
            }
            let mut got = vec![];
            if round % 2 == 0 {
                // The subscription is removed: the channel closes by itself.
                loop {
                    match tokio::time::timeout(Duration::from_secs(30), rx.recv()).await {
                        Ok(Some(m)) => {
                            if m.src == 50 {
                                got.push(m.seq)
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {
                            errs.push(("delivery:removed:not-closed".into(), json!(round)));
                            break;
                        }
                    }
                }
                if got != (first..last).collect::<Vec<_>>() {
                    errs.push((
                        "delivery:dynamic:wrong-window".into(),
                        json!({"got": got, "subscribed_from": first, "unsubscribed_at": last}),
                    ));
                }
            } else {
                while let Ok(m) = rx.try_recv() {
                    if m.src == 50 {
                        got.push(m.seq)
                    }
                }
                let want = (first..last).collect::<Vec<_>>();
                if got.len() < want.len() || got[..want.len()] != want[..] {
                    errs.push((
                        "delivery:dynamic:missed-after-subscribe".into(),
                        json!({"got": got, "subscribed_from": first, "sent_until": last}),
                    ));
                }
            }
        }
        (seq, errs)
    });
    let drop_at = rng.gen_range(0..3);
    for k in 0..drop_at {
        jitter(rng, 0).await;
        let _ = k;
    }
    drop(bad_in);
    drop(bad_out);

    let mut want_in = BTreeMap::new();
    let mut want_notap = BTreeMap::new();
    let mut want_out = BTreeMap::new();
    for (p, t) in tasks.into_iter().enumerate() {
        let (ni, no, nn) = match t.await {
            Ok(r) => r,
            Err(_) => {
                // A producer died: the panic is reported by the caller.
                return;
            }
        };
        want_in.insert(p as u32, ni);
        want_out.insert(p as u32, no);
        want_notap.insert(100 + p as u32, nn);
    }
    let Ok((nd, errs)) = dyn_task.await else { return };
    want_in.insert(50, nd);
    for (s, d) in errs {
        mon.violation(&s, d);
    }
    // Handlers answer every message to taps and NoTap alike.
    for (h, reply) in reply_total.iter().enumerate() {
        for (src, n) in want_in.iter().chain(want_notap.iter()) {
            want_out.insert(1000 * (h as u32 + 1) + src, n * reply);
        }
    }
    b.emit_msg_in(i(END, 0)).unwrap();
    b.emit_msg_out(o(END, 0)).unwrap();

    let mut orders_in = vec![];
    for (k, rx) in taps_in.iter_mut().enumerate() {
        let (got, ended) = until_end(rx, |m| m.src == END).await;
        mon.count("deliveries", got.len() as u64);
        mon.check(ended, "delivery:tap-in:closed-or-stalled", || json!({"tap": k, "got": got.len()}));
        let g: Vec<_> = got.iter().map(|m| (m.src, m.seq)).collect();
        check_seq(mon, "tap-in", &g, &want_in);
        orders_in.push(g);
    }
    let mut orders_out = vec![];
    for (k, rx) in taps_out.iter_mut().enumerate() {
        let (got, ended) = until_end(rx, |m| m.src == END).await;
        mon.count("deliveries", got.len() as u64);
        mon.check(ended, "delivery:tap-out:closed-or-stalled", || json!({"tap": k, "got": got.len()}));
        let g: Vec<_> = got.iter().map(|m| (m.src, m.seq)).collect();
        check_seq(mon, "tap-out", &g, &want_out);
        orders_out.push(g);
    }
    // All async taps have seen the end, so the synchronous taps have it, too.
    let mut end_seen = false;
    let mut g = vec![];
    for _ in 0..3000 {
        while let Ok(m) = sync_in.try_recv() {
            if m.src == END {
                end_seen = true;
            } else {
                g.push((m.src, m.seq));
            }
        }
        if end_seen {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    mon.check(end_seen, "delivery:tap-sync-in:stalled", || json!(g.len()));
    check_seq(mon, "tap-sync-in", &g, &want_in);
    orders_in.push(g);
    let mut g = vec![];
    let mut end_seen = false;
    for _ in 0..3000 {
        while let Ok(m) = sync_out.try_recv() {
            if m.src == END {
                end_seen = true;
            } else {
                g.push((m.src, m.seq));
            }
        }
        if end_seen {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    mon.check(end_seen, "delivery:tap-sync-out:stalled", || json!(g.len()));
    check_seq(mon, "tap-sync-out", &g, &want_out);
    orders_out.push(g);

    let mut want_h = want_in.clone();
    want_h.extend(want_notap);
    for (h, seen) in recs.iter().enumerate() {
        let mut tries = 0;
        while !seen.lock().unwrap().iter().any(|m| m.src == END) && tries < 3000 {
            tokio::time::sleep(Duration::from_millis(10)).await;
            tries += 1;
        }
        let g: Vec<_> = seen
            .lock()
            .unwrap()
            .iter()
            .filter(|m| m.src != END)
            .map(|m| (m.src, m.seq))
            .collect();
        mon.count("deliveries", g.len() as u64);
        check_seq(mon, "handler", &g, &want_h);
        let tapped: Vec<_> = g.into_iter().filter(|m| m.0 < 100).collect();
        orders_in.push(tapped);
        let _ = h;
    }
    let same_in = orders_in.windows(2).all(|w| w[0] == w[1]);
    let same_out = orders_out.windows(2).all(|w| w[0] == w[1]);
    mon.check(same_in, "order:subscribers-disagree-in", || json!({"orders": orders_in}));
    mon.check(same_out, "order:subscribers-disagree-out", || json!({"orders": orders_out}));
    let inter = orders_in[0].windows(3).any(|w| w[0].0 != w[1].0 && w[0].0 == w[2].0);
    if inter {
        mon.count("interleaved_histories", 1);
        mon.nontrivial(&orders_in[0]);
        let s = orders_in[0].iter().take(12).map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(" ");
        mon.sample(json!({"order_of_the_first_inputs": s, "producers": producers, "handlers": n_h}));
    }
}

// --- B02 and B03: topologies of linked brokers

#[derive(Clone, Debug)]
struct Edge {
    from: usize,
    to: usize,
    // direction of the message at the source / the target: false = in, true = out
    d_from: bool,
    d_to: bool,
    // only messages with seq % modulo == rest pass
    modulo: u32,
    rest: u32,
    id: u8,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Delivery {
    broker: usize,
    out: bool,
    src: u32,
    seq: u32,
    path: Vec<u8>,
}

/// What a message causes. relays[b]: broker b has a handler turning each input into one output.
fn model(
    edges: &[Edge],
    relays: &[bool],
    broker: usize,
    out: bool,
    src: u32,
    seq: u32,
    path: Vec<u8>,
    trail: Vec<usize>,
    res: &mut Vec<(Delivery, bool)>,
) {
    let revisit = trail.contains(&broker);
    res.push((
        Delivery {
            broker,
            out,
            src,
            seq,
            path: path.clone(),
        },
        revisit,
    ));
    if !revisit {
        let mut t = trail.clone();
        t.push(broker);
        for e in edges.iter().filter(|e| e.from == broker && e.d_from == out && seq % e.modulo == e.rest) {
            let mut p = path.clone();
            p.push(e.id);
            model(edges, relays, e.to, e.d_to, src, seq, p, t.clone(), res);
        }
    }
    if !out && relays[broker] && src < 1000 {
        // The answer is a new message.
        model(edges, relays, broker, true, 1000 + src, seq, path, vec![], res);
    }
}

/// Forwards each input once as an output.
struct Relay {
    rng: StdRng,
    jitter: u32,
}
#[async_trait]
impl SubsystemHandler<In, Out> for Relay {
    async fn messages(&mut self, msgs: Vec<In>) -> Vec<Out> {
        let mut ret = vec![];
        for m in msgs {
            if self.jitter > 0 {
                match self.rng.gen_range(0..self.jitter + 3) {
                    0 => tokio::task::yield_now().await,
                    1 => tokio::time::sleep(Duration::from_micros(self.rng.gen_range(0..3000))).await,
                    _ => (),
                }
            }
            if m.src < 1000 {
                ret.push(Out {
                    src: 1000 + m.src,
                    seq: m.seq,
                    path: m.path,
                });
            }
        }
        ret
    }
}

async fn link(bs: &mut Vec<Broker<In, Out>>, e: &Edge) -> usize {
    let to = bs[e.to].clone();
    let (m, r, id) = (e.modulo, e.rest, e.id);
    let p = move |path: &Vec<u8>| {
        let mut p = path.clone();
        p.push(id);
        p
    };
    let b = &mut bs[e.from];
    match (e.d_from, e.d_to) {
        (false, false) => b
            .add_translator_i_ti(to, Box::new(move |x: In| {
                (x.seq % m == r).then(|| In { src: x.src, seq: x.seq, path: p(&x.path) })
            }))
            .await,
        (false, true) => b
            .add_translator_i_to(to, Box::new(move |x: In| {
                (x.seq % m == r).then(|| Out { src: x.src, seq: x.seq, path: p(&x.path) })
            }))
            .await,
        (true, false) => b
            .add_translator_o_ti(to, Box::new(move |x: Out| {
                (x.seq % m == r).then(|| In { src: x.src, seq: x.seq, path: p(&x.path) })
            }))
            .await,
        (true, true) => b
            .add_translator_o_to(to, Box::new(move |x: Out| {
                (x.seq % m == r).then(|| Out { src: x.src, seq: x.seq, path: p(&x.path) })
            }))
            .await,
    }
    .unwrap()
}

/// Long chains, rings and trees, where messages can pass all brokers.
fn long_edges(rng: &mut StdRng, n: usize, relays: &[bool], dag: bool) -> Vec<Edge> {
    let mut edges: Vec<Edge> = vec![];
    let back = !dag && rng.gen();
    let tree = rng.gen_range(0..4) == 0;
    // The direction in which the message is at each broker: a relay changes it.
    let enter: Vec<bool> = (0..n).map(|k| if relays[k] { false } else { rng.gen() }).collect();
    let mut add = |from: usize, to: usize| {
        let id = edges.len() as u8;
        edges.push(Edge {
            from,
            to,
            d_from: relays[from] || enter[from],
            d_to: enter[to],
            modulo: 1,
            rest: 0,
            id,
        });
    };
    for k in 1..n {
        let from = if tree { rng.gen_range(k.saturating_sub(3)..k) } else { k - 1 };
        add(from, k);
        if back {
            add(k, from);
        }
    }
    if !dag && rng.gen() {
        add(n - 1, 0);
    }
    edges
}

fn rnd_edges(rng: &mut StdRng, n: usize, dag: bool) -> Vec<Edge> {
    let n_e = rng.gen_range(1..8);
    let mut edges: Vec<Edge> = vec![];
    for id in 0..n_e {
        let (mut from, mut to) = (rng.gen_range(0..n), rng.gen_range(0..n));
        if from == to {
            continue;
        }
        if dag && from > to {
            std::mem::swap(&mut from, &mut to);
        }
        let modulo = *mon::util::pick(rng, &[1, 1, 1, 2, 3]);
        let rest = rng.gen_range(0..modulo);
        let e = Edge {
            from,
            to,
            d_from: rng.gen(),
            d_to: rng.gen(),
            modulo,
            rest,
            id: id as u8,
        };
        edges.push(e);
    }
    edges
}

async fn b02_case(mon: &mut Mon, rng: &mut StdRng, settle: bool) {
    let long = rng.gen_range(0..4) == 0;
    let n = if long { rng.gen_range(4..14) } else { rng.gen_range(2..6usize) };
    let lvl = rng.gen_range(0..5);
    // In a cyclic topology a relay would create messages for ever.
    let mut relays: Vec<bool> = (0..n).map(|_| settle && rng.gen_range(0..3) > 0).collect();
    if !settle && rng.gen() {
        relays[rng.gen_range(0..n)] = true;
    }
    let edges = if long { long_edges(rng, n, &relays, settle) } else { rnd_edges(rng, n, settle) };
    let mut bs: Vec<Broker<In, Out>> = (0..n).map(|_| Broker::new()).collect();
    for (k, r) in relays.iter().enumerate() {
        if *r {
            bs[k]
                .add_handler(Box::new(Relay {
                    rng: StdRng::seed_from_u64(rng.gen()),
                    jitter: lvl,
                }))
                .await
                .unwrap();
        }
    }
    for e in &edges {
        link(&mut bs, e).await;
    }
    let mut taps = vec![];
    for b in bs.iter_mut() {
        taps.push((b.get_tap_in().await.unwrap().0, b.get_tap_out().await.unwrap().0));
    }
    let mut all: Vec<(Delivery, bool)> = vec![];
    let mut got: Vec<Delivery> = vec![];
    let msgs = rng.gen_range(1..12);
    for seq in 0..msgs {
        let at = if settle && rng.gen_range(0..3) > 0 { 0 } else { rng.gen_range(0..n) };
        let out: bool = rng.gen();
        let mut res = vec![];
        model(&edges, &relays, at, out, 7, seq, vec![], vec![], &mut res);
        if all.len() + res.len() > 3000 {
            break;
        }
        let new = res.len();
        let one: Vec<Delivery> = res.iter().map(|r| r.0.clone()).collect();
        all.extend(res);
        if settle {
            // Sometimes first send some without waiting.
            if rng.gen_range(0..3) == 0 {
                if out {
                    bs[at].emit_msg_out(o(7, seq)).unwrap();
                } else {
                    bs[at].emit_msg_in(i(7, seq)).unwrap();
                }
                bs[at].settle(vec![]).await.unwrap();
            } else if out {
                bs[at].settle_msg_out(o(7, seq)).await.unwrap();
            } else {
                bs[at].settle_msg_in(i(7, seq)).await.unwrap();
            }
            // Everything must be there now, without waiting.
            let mut seen = vec![];
            collect(&mut taps, &mut seen);
            let mut want = one;
            want.sort();
            let mut have = seen.clone();
            have.sort();
            let ok = want == have;
            mon.count("settle_points", 1);
            mon.count("deliveries", have.len() as u64);
            mon.check(ok, "settle:incomplete", || {
                json!({"edges": format!("{edges:?}"), "relays": relays, "sent_to": at, "out": out, "seq": seq,
                       "expected": new, "seen_when_settled": have.len(),
                       "missing": format!("{:?}", want.iter().filter(|w| !have.contains(w)).take(3).collect::<Vec<_>>())})
            });
            got.extend(seen);
            if !ok {
                return;
            }
        } else {
            if out {
                bs[at].emit_msg_out(o(7, seq)).unwrap();
            } else {
                bs[at].emit_msg_in(i(7, seq)).unwrap();
            }
            jitter(rng, lvl).await;
        }
    }
    if settle {
        let depth = got.iter().map(|d| d.path.len()).max().unwrap_or(0);
        if depth >= 2 {
            mon.nontrivial((format!("{edges:?}"), relays.clone()));
            mon.sample(json!({"brokers": n, "links": format!("{edges:?}"), "relays": relays, "longest_path": depth}));
        }
        return;
    }
    // Exactly-once for all first visits; a message coming back to a broker which already
    // forwarded it may be shown there at most once per path.
    let must: Vec<&Delivery> = all.iter().filter(|(_, r)| !r).map(|(d, _)| d).collect();
    let mut want: HashMap<Delivery, (usize, usize)> = HashMap::new();
    for (d, revisit) in &all {
        let w = want.entry(d.clone()).or_insert((0, 0));
        w.1 += 1;
        if !revisit {
            w.0 += 1;
        }
    }
    for _ in 0..3000 {
        collect(&mut taps, &mut got);
        if got.len() >= all.len() {
            break;
        }
        let mut have: HashMap<&Delivery, usize> = HashMap::new();
        got.iter().for_each(|g| *have.entry(g).or_insert(0) += 1);
        if must.iter().all(|m| have.get(m).cloned().unwrap_or(0) >= want[*m].0) {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    // Give surplus messages a chance to appear: all brokers process what they still have.
    for _ in 0..n + 2 {
        for b in bs.iter_mut() {
            let _ = b.settle(vec![]).await;
        }
    }
    collect(&mut taps, &mut got);
    mon.count("deliveries", got.len() as u64);
    let mut have: HashMap<Delivery, usize> = HashMap::new();
    got.iter().for_each(|g| *have.entry(g.clone()).or_insert(0) += 1);
    for (d, (min, max)) in &want {
        let h = have.get(d).cloned().unwrap_or(0);
        mon.check(h >= *min, "forward:lost", || {
            json!({"edges": format!("{edges:?}"), "relays": relays, "delivery": format!("{d:?}"), "expected": min, "got": h})
        });
        mon.check(h <= *max, "forward:duplicate", || {
            json!({"edges": format!("{edges:?}"), "relays": relays, "delivery": format!("{d:?}"), "expected_at_most": max, "got": h})
        });
    }
    for d in have.keys() {
        mon.check(want.contains_key(d), "forward:unexpected", || {
            json!({"edges": format!("{edges:?}"), "relays": relays, "delivery": format!("{d:?}")})
        });
    }
    // FIFO along each path
    let mut last: HashMap<(usize, bool, u32, Vec<u8>), u32> = HashMap::new();
    for g in &got {
        let k = (g.broker, g.out, g.src, g.path.clone());
        // Only paths starting at the same broker are ordered; the path is empty at the start.
        if g.path.is_empty() {
            continue;
        }
        let prev = last.insert(k, g.seq);
        mon.check(prev.map(|p| p < g.seq).unwrap_or(true), "forward:reordered", || {
            json!({"edges": format!("{edges:?}"), "delivery": format!("{g:?}"), "after": prev})
        });
    }
    let rev = all.iter().filter(|(_, r)| *r).count();
    mon.count("loops_cut", rev as u64);
    if all.iter().any(|(d, _)| d.path.len() >= 2) {
        mon.nontrivial((format!("{edges:?}"), relays.clone()));
        mon.sample(json!({"brokers": n, "links": format!("{edges:?}"), "deliveries": got.len(), "loops_cut": rev}));
    }
}

fn collect(taps: &mut Vec<(UnboundedReceiver<In>, UnboundedReceiver<Out>)>, got: &mut Vec<Delivery>) {
    for (broker, (ti, to)) in taps.iter_mut().enumerate() {
        while let Ok(m) = ti.try_recv() {
            got.push(Delivery { broker, out: false, src: m.src, seq: m.seq, path: m.path });
        }
        while let Ok(m) = to.try_recv() {
            got.push(Delivery { broker, out: true, src: m.src, seq: m.seq, path: m.path });
        }
    }
}

fn b02(mon: &mut Mon) {
    mon.rule("a case is a random topology of 2-5 brokers, or a chain, ring or tree of up to 13, with filtering translators of all four kinds, cycles and parallel links included; \
              the observed deliveries are compared with a path-enumerating model; non-trivial if a path has at least two hops; fingerprint is the topology");
    mon.require("loops_cut", 50);
    mon.require("deliveries", 2000);
    for c in 0..mon.n(500, 8000) {
        let Some(mut rng) = mon.begin(format!("b02-{c}")) else { continue };
        let rt = rt_for(&mut rng);
        if drive(&rt, 120, b02_case(mon, &mut rng, false)).is_none() {
            mon.violation("forward:stuck", json!("the case didn't end in 120s"));
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
    // The two bidirectional ways to link
    for c in 0..mon.n(60, 600) {
        let Some(mut rng) = mon.begin(format!("b02-link-{c}")) else { continue };
        let rt = rt_for(&mut rng);
        if drive(&rt, 120, b02_link(mon, &mut rng)).is_none() {
            mon.violation("forward:stuck-link", json!("the case didn't end in 120s"));
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
}

async fn b02_link(mon: &mut Mon, rng: &mut StdRng) {
    let mut a: Broker<In, Out> = Broker::new();
    let mut b: Broker<In, Out> = Broker::new();
    let direct: bool = rng.gen();
    if direct {
        a.add_translator_direct(
            b.clone(),
            Box::new(|m: Out| Some(m)),
            Box::new(|m: In| Some(m)),
        )
        .await
        .unwrap();
    } else {
        a.add_translator_link(
            b.clone(),
            Box::new(|m: Out| Some(In { src: m.src, seq: m.seq, path: m.path })),
            Box::new(|m: Out| Some(In { src: m.src, seq: m.seq, path: m.path })),
        )
        .await
        .unwrap();
    }
    let mut taps = vec![];
    for x in [&mut a, &mut b] {
        taps.push((x.get_tap_in().await.unwrap().0, x.get_tap_out().await.unwrap().0));
    }
    let n = rng.gen_range(1..30u32);
    let mut want: Vec<Vec<u32>> = vec![vec![]; 4]; // a.in a.out b.in b.out
    for s in 0..n {
        match rng.gen_range(0..4) {
            0 => {
                a.emit_msg_in(i(1, s)).unwrap();
                want[0].push(s);
            }
            1 => {
                a.emit_msg_out(o(1, s)).unwrap();
                want[1].push(s);
                want[if direct { 3 } else { 2 }].push(s);
            }
            2 => {
                b.emit_msg_in(i(1, s)).unwrap();
                want[2].push(s);
                if direct {
                    want[0].push(s);
                }
            }
            _ => {
                b.emit_msg_out(o(1, s)).unwrap();
                want[3].push(s);
                if !direct {
                    want[0].push(s);
                }
            }
        }
    }
    let total: usize = want.iter().map(|w| w.len()).sum();
    let mut got = vec![];
    for _ in 0..3000 {
        collect(&mut taps, &mut got);
        if got.len() >= total {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    for _ in 0..2 {
        a.settle(vec![]).await.unwrap();
        b.settle(vec![]).await.unwrap();
    }
    collect(&mut taps, &mut got);
    mon.count("deliveries", got.len() as u64);
    for (k, w) in want.iter_mut().enumerate() {
        let mut h: Vec<u32> = got
            .iter()
            .filter(|d| d.broker == k / 2 && d.out == (k % 2 == 1))
            .map(|d| d.seq)
            .collect();
        h.sort();
        w.sort();
        mon.check(&h == w, "forward:link", || {
            json!({"direct": direct, "end": (["a.in", "a.out", "b.in", "b.out"][k]), "expected": w, "got": h})
        });
    }
    mon.nontrivial((direct, want));
}

fn b03(mon: &mut Mon) {
    mon.rule("a case is a random acyclic topology of 2-5 brokers, or a chain or tree of up to 13, with translators of all four kinds, filters, and slow handlers that answer; after each settle the \
              taps of all brokers are read without waiting and must hold exactly the deliveries of the model; non-trivial if a path has at least two hops; fingerprint is the topology");
    mon.require("settle_points", 1000);
    for c in 0..mon.n(500, 8000) {
        let Some(mut rng) = mon.begin(format!("b03-{c}")) else { continue };
        let rt = rt_for(&mut rng);
        if drive(&rt, 120, b02_case(mon, &mut rng, true)).is_none() {
            mon.violation("settle:stuck", json!("the case didn't end in 120s"));
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
    // Several tasks settle the same ring of bidirectionally linked brokers: no deadlock allowed,
    // and each message is seen by the direct neighbours when its settle is done.
    for c in 0..mon.n(60, 600) {
        let Some(mut rng) = mon.begin(format!("b03-ring-{c}")) else { continue };
        let rt = rt_multi(4);
        let r = drive(&rt, 60, async {
            let n = rng.gen_range(2..6usize);
            let mut bs: Vec<Broker<In, Out>> = (0..n).map(|_| Broker::new()).collect();
            for k in 0..n {
                let to = bs[(k + 1) % n].clone();
                bs[k]
                    .add_translator_link(
                        to,
                        Box::new(|m: Out| Some(In { src: m.src, seq: m.seq, path: m.path })),
                        Box::new(|m: Out| Some(In { src: m.src, seq: m.seq, path: m.path })),
                    )
                    .await
                    .unwrap();
            }
            let mut tasks = vec![];
            for k in 0..n {
                let mut me = bs[k].clone();
                let mut next = bs[(k + 1) % n].clone();
                let mut trng = StdRng::seed_from_u64(rng.gen());
                tasks.push(tokio::spawn(async move {
                    let (mut rx, _) = next.get_tap_in().await.unwrap();
                    let mut missed = 0;
                    for s in 0..10u32 {
                        me.settle_msg_out(o(k as u32, s)).await.unwrap();
                        let mut seen = false;
                        while let Ok(m) = rx.try_recv() {
                            seen |= m.src == k as u32 && m.seq == s;
                        }
                        missed += (!seen) as usize;
                        jitter(&mut trng, 3).await;
                    }
                    missed
                }));
            }
            let mut missed = 0;
            for t in tasks {
                missed += t.await.unwrap_or(0);
            }
            (n, missed)
        });
        mon.count("ring_settles", 10);
        match r {
            None => mon.violation("settle:deadlock", json!("settling a ring from several tasks didn't end in 60s")),
            Some((n, missed)) => {
                mon.check(missed == 0, "settle:neighbour-missed", || json!({"brokers": n, "missed": missed}));
            }
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
}

fn b04(mon: &mut Mon) {
    mon.rule("a case clones and drops handles of one broker from several tasks while messages are sent, with up to two brokers kept alive only by a link; \
              the monitor watches the handler's destructor and the taps' end; non-trivial if handles were dropped in more than one task; fingerprint is the drop plan");
    mon.require("handles_dropped", 500);
    for c in 0..mon.n(250, 3000) {
        let Some(mut rng) = mon.begin(format!("b04-{c}")) else { continue };
        let rt = rt_for(&mut rng);
        if drive(&rt, 120, b04_case(mon, &mut rng)).is_none() {
            mon.violation("life:stuck", json!("the case didn't end in 120s"));
        }
        mon.check_panics("broker");
        rt.shutdown_background();
    }
}

async fn b04_case(mon: &mut Mon, rng: &mut StdRng) {
    let mut b: Broker<In, Out> = Broker::new();
    let rec = Rec::new(0, 1, rng.gen_range(0..3), rng.gen());
    let (dropped, seen) = (rec.dropped.clone(), rec.seen.clone());
    b.add_handler(Box::new(rec)).await.unwrap();
    // A second broker is only kept alive by the translator of the first.
    let mut linked: Broker<In, Out> = Broker::new();
    let rec2 = Rec::new(1, 0, 0, rng.gen());
    let (dropped2, seen2) = (rec2.dropped.clone(), rec2.seen.clone());
    linked.add_handler(Box::new(rec2)).await.unwrap();
    b.add_translator_o_ti(linked.clone(), Box::new(|m: Out| Some(In { src: m.src, seq: m.seq, path: m.path })))
        .await
        .unwrap();
    let (mut tap, _) = b.get_tap_out().await.unwrap();
    drop(linked);
    let tasks_n = rng.gen_range(1..5u32);
    let total = Arc::new(AtomicUsize::new(0));
    let handles = Arc::new(AtomicUsize::new(0));
    let mut plan = vec![];
    let mut tasks = vec![];
    for t in 0..tasks_n {
        let mine = b.clone();
        let seed: u64 = rng.gen();
        plan.push(seed);
        let mut trng = StdRng::seed_from_u64(seed);
        let (dropped, total, handles) = (dropped.clone(), total.clone(), handles.clone());
        tasks.push(tokio::spawn(async move {
            let mut pool = vec![mine];
            let mut seq = 0;
            let mut early = false;
            // Sometimes many handles at once
            if trng.gen_range(0..5) == 0 {
                for _ in 0..trng.gen_range(10..400) {
                    pool.push(pool[0].clone());
                }
                let keep = trng.gen_range(1..pool.len());
                handles.fetch_add(pool.len() - keep, Ordering::SeqCst);
                pool.truncate(keep);
            }
            for _ in 0..trng.gen_range(1..30) {
                match trng.gen_range(0..4) {
                    0 => {
                        let k = trng.gen_range(0..pool.len());
                        let c = pool[k].clone();
                        pool.push(c);
                    }
                    1 if pool.len() > 1 => {
                        let k = trng.gen_range(0..pool.len());
                        pool.remove(k);
                        handles.fetch_add(1, Ordering::SeqCst);
                    }
                    _ => {
                        let k = trng.gen_range(0..pool.len());
                        if pool[k].emit_msg_in(i(t, seq)).is_err() {
                            return (seq, true);
                        }
                        seq += 1;
                        total.fetch_add(1, Ordering::SeqCst);
                    }
                }
                // A handle is alive here.
                early |= dropped.load(Ordering::SeqCst);
                jitter(&mut trng, 0).await;
            }
            handles.fetch_add(pool.len(), Ordering::SeqCst);
            (seq, early)
        }));
    }
    if rng.gen() {
        drop(b);
    } else {
        // The last handle lives longer than the tasks.
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        let mut want = BTreeMap::new();
        for (t, h) in tasks.drain(..).enumerate() {
            if let Ok((n, early)) = h.await {
                want.insert(t as u32, n);
                mon.check(!early, "life:ended-with-live-handles", || json!({"task": t}));
            }
        }
        mon.check(!dropped.load(Ordering::SeqCst), "life:ended-with-live-handles", || json!("main handle"));
        mon.check(b.settle_msg_in(i(60, 0)).await.is_ok(), "life:refused-with-live-handle", || json!("main handle"));
        want.insert(60, 1);
        let g: Vec<_> = seen.lock().unwrap().iter().map(|m| (m.src, m.seq)).collect();
        check_seq(mon, "life-handler", &g, &want);
        drop(b);
    }
    let mut sent = None;
    if !tasks.is_empty() {
        let mut want = BTreeMap::new();
        for (t, h) in tasks.drain(..).enumerate() {
            if let Ok((n, early)) = h.await {
                want.insert(t as u32, n);
                mon.check(!early, "life:ended-with-live-handles", || json!({"task": t}));
            }
        }
        sent = Some(want);
    }
    mon.count("handles_dropped", handles.load(Ordering::SeqCst) as u64);
    // All handles are gone: everything sent is still handled, then the resources are freed.
    let mut tap_ended = false;
    let mut tapped = 0;
    loop {
        match tokio::time::timeout(Duration::from_secs(30), tap.recv()).await {
            Ok(Some(_)) => tapped += 1,
            Ok(None) => {
                tap_ended = true;
                break;
            }
            Err(_) => break,
        }
    }
    mon.check(tap_ended, "life:tap-not-closed", || json!({"seen": tapped}));
    for _ in 0..3000 {
        if dropped.load(Ordering::SeqCst) && dropped2.load(Ordering::SeqCst) {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    mon.check(dropped.load(Ordering::SeqCst), "life:handler-not-freed", || json!("first broker"));
    mon.check(dropped2.load(Ordering::SeqCst), "life:linked-handler-not-freed", || json!("second broker"));
    if let Some(want) = sent {
        let g: Vec<_> = seen.lock().unwrap().iter().map(|m| (m.src, m.seq)).collect();
        check_seq(mon, "life-handler", &g, &want);
    }
    let n1 = seen.lock().unwrap().len();
    let n2 = seen2.lock().unwrap().len();
    mon.count("messages", n1 as u64);
    mon.check(n1 == n2 && n1 == tapped, "life:answers-lost", || json!({"handled": n1, "linked": n2, "tapped": tapped}));
    if tasks_n > 1 && handles.load(Ordering::SeqCst) > tasks_n as usize {
        mon.nontrivial(plan);
        mon.sample(json!({"tasks": tasks_n, "handles_dropped": handles.load(Ordering::SeqCst), "messages": n1}));
    }
}

fn main() {
    main_with(|mon, id| match id {
        "B01" => b01(mon),
        "B02" => b02(mon),
        "B03" => b03(mon),
        "B04" => b04(mon),
        _ => panic!("unknown property"),
    })
}
