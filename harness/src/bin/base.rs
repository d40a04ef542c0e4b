//! I01 identifiers, S01/S02 storage, T01 timer, F01 configuration.
use std::{
    collections::{BTreeMap, HashMap},
    process::Command,
    str::FromStr,
    time::Duration,
};

use base64::prelude::*;
use flarch::{
    broker::Broker,
    data_storage::{DataStorage, DataStorageFile, DataStorageTemp},
    nodeids::{NodeID, NodeIDs, U256},
    tasks::{now, Interval},
};
use flcrypto::access::BadgeID;
use flmodules::{
    nodeconfig::{NodeConfig, NodeInfo},
    timer::{Timer, TimerMessage},
    Modules,
};
use mon::{
    main_with, rt_current, rt_paused,
    util::{guarded, hex, pick, rnd_bytes, rnd_string, Scratch},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::json;
use tokio_stream::StreamExt;

// ---------------------------------------------------------------- I01
fn parse_oracle(s: &str) -> Option<[u8; 32]> {
    if s.len() > 64 || s.len() % 2 == 1 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    let mut r = [0u8; 32];
    for (i, c) in s.as_bytes().chunks(2).enumerate() {
        r[i] = u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap();
    }
    Some(r)
}

fn id_string(rng: &mut StdRng) -> String {
    let len = *pick(rng, &[0, 1, 2, 3, 4, 15, 16, 31, 32, 33, 62, 63, 64, 65, 66, 128]);
    let mut s: Vec<char> = (0..len)
        .map(|_| *pick(rng, &"0123456789abcdefABCDEF".chars().collect::<Vec<_>>()))
        .collect();
    for _ in 0..*pick(rng, &[0, 0, 0, 1, 1, 2]) {
        let c = *pick(
            rng,
            &['+', '-', ' ', 'g', 'G', 'x', '\u{e9}', '\u{4e16}', '\u{1F600}', '\0', '_', ':', '\u{660}'],
        );
        if s.is_empty() {
            s.push(c)
        } else {
            let i = rng.gen_range(0..s.len());
            s[i] = c
        }
    }
    s.into_iter().collect()
}

fn oracle_varint(n: usize, out: &mut Vec<u8>) {
    if n < 0x80 {
        out.push(n as u8);
        return;
    }
    let bytes = (1..=8).find(|b| *b == 8 || n >> (8 * b) == 0).unwrap();
    out.push(0x80 + bytes as u8);
    for i in (0..bytes).rev() {
        out.push((n >> (8 * i)) as u8);
    }
}
fn oracle_hash(domain: &str, parts: &[Vec<u8>]) -> [u8; 32] {
    use sha2::Digest;
    let mut b = vec![];
    oracle_varint(domain.len(), &mut b);
    b.extend_from_slice(domain.as_bytes());
    oracle_varint(parts.len(), &mut b);
    for p in parts {
        oracle_varint(p.len(), &mut b);
        b.extend_from_slice(p);
    }
    sha2::Sha256::digest(&b).into()
}
fn oracle_hash_data(data: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    let mut b = vec![];
    oracle_varint(data.len(), &mut b);
    b.extend_from_slice(data);
    sha2::Sha256::digest(&b).into()
}

fn i01(mon: &mut Mon) {
    mon.rule("strings near the valid hexadecimal ones, tuples of byte strings which become equal when concatenated, maps in all insertion orders, and lists with common elements; non-trivial when a string differs from a valid one, or when tuples differ; distinct by input");
    mon.require("parsed_ok", 1000);
    mon.require("parsed_err", 1000);
    mon.require("hashed_tuples", 1000);
    for c in 0..mon.n(40, 400) {
        let Some(mut rng) = mon.begin(format!("parse-{c}")) else { continue };
        for _ in 0..500 {
            let s = id_string(&mut rng);
            let want = parse_oracle(&s);
            mon.nontrivial(&s);
            let got = guarded(|| U256::from_str(&s).ok().map(|u| u.to_bytes()));
            let got2 = guarded(|| BadgeID::from_str(&s).ok().map(|u| u.to_bytes()));
            mon.check_panics("parse");
            mon.count(if want.is_some() { "parsed_ok" } else { "parsed_err" }, 1);
            if let (Some(got), Some(got2)) = (got, got2) {
                mon.check(got == want && got2 == want, "id-parse", || json!({"string": s, "got": got.map(|g| hex(&g)), "want": want.map(|g| hex(&g))}));
            }
        }
        for _ in 0..50 {
            let b: [u8; 32] = rnd_bytes(&mut rng, 32).try_into().unwrap();
            let u = U256::from(b);
            let x = format!("{u:x}");
            mon.check(x == hex(&b) && U256::from_str(&x).unwrap() == u, "id-hex-roundtrip", || json!(x));
            let short = format!("{u}");
            mon.check(hex(&b).starts_with(&short) && short.len() >= 8, "id-display", || json!([short, x]));
            mon.check(u.to_bytes() == b && u.bytes()[..] == b && u.as_ref() == b, "id-bytes", || json!(x));
            let y: Option<U256> = serde_yaml::to_string(&u).ok().and_then(|s| serde_yaml::from_str(&s).ok());
            let j: Option<U256> = serde_json::to_string(&u).ok().and_then(|s| serde_json::from_str(&s).ok());
            let r: Option<U256> = rmp_serde::to_vec(&u).ok().and_then(|s| rmp_serde::from_slice(&s).ok());
            mon.check(y == Some(u) && j == Some(u) && r == Some(u), "id-serde", || json!(x));
            // The order of ids is the order of their bytes, most significant first.
            let b2: [u8; 32] = {
                let mut b2 = b;
                let i = rng.gen_range(0..32);
                b2[i] = rng.gen();
                b2
            };
            mon.check(u.cmp(&U256::from(b2)) == b.cmp(&b2), "id-order", || json!([x, hex(&b2)]));
        }
    }

    // Collisions of hash_domain_parts.
    let mut seen: HashMap<[u8; 32], (String, Vec<Vec<u8>>)> = HashMap::new();
    let mut one = |mon: &mut Mon, d: &str, p: Vec<Vec<u8>>| {
        let sl: Vec<&[u8]> = p.iter().map(|b| b.as_slice()).collect();
        let h = U256::hash_domain_parts(d, &sl).to_bytes();
        mon.count("hashed_tuples", 1);
        let want = oracle_hash(d, &p);
        mon.check(h == want, "hash-changed", || json!({"domain": d, "part_lens": p.iter().map(|b| b.len()).collect::<Vec<_>>(), "got": hex(&h), "want": hex(&want)}));
        let key = (d.to_string(), p.clone());
        let short = |(d, p): &(String, Vec<Vec<u8>>)| json!({"domain_len": d.len(), "parts": p.iter().map(|b| if b.len() < 20 { hex(b) } else { format!("{} bytes {}..", b.len(), hex(&b[..4])) }).collect::<Vec<_>>()});
        match seen.get(&h) {
            Some(k) => {
                let same = *k == key;
                mon.check(same, "hash-collision", || json!([short(k), short(&key)]));
            }
            None => {
                mon.nontrivial(&key);
                seen.insert(h, key);
            }
        }
    };
    if mon.begin("hash-exhaustive".into()).is_some() {
        // All tuples of a domain and up to three parts over the bytes that length prefixes use.
        let alpha: Vec<u8> = vec![0, 1, 2, 3];
        let maxb = mon.n(4, 5);
        let mut strings: Vec<Vec<u8>> = vec![vec![]];
        let mut all = strings.clone();
        for _ in 0..maxb {
            strings = strings
                .iter()
                .flat_map(|s| alpha.iter().map(move |a| [s.clone(), vec![*a]].concat()))
                .collect();
            all.extend(strings.clone());
        }
        for s in all {
            // Every way to cut it into a domain and 0..=3 parts.
            let n = s.len();
            for i in 0..=n {
                let d = String::from_utf8(s[..i].to_vec()).unwrap();
                if i == n {
                    one(mon, &d, vec![]);
                }
                one(mon, &d, vec![s[i..].to_vec()]);
                for j in i..=n {
                    one(mon, &d, vec![s[i..j].to_vec(), s[j..].to_vec()]);
                    for k in j..=n {
                        one(mon, &d, vec![s[i..j].to_vec(), s[j..k].to_vec(), s[k..].to_vec()]);
                    }
                }
            }
        }
    }
    for c in 0..mon.n(60, 600) {
        let Some(mut rng) = mon.begin(format!("hash-long-{c}")) else { continue };
        // The same bytes cut at places where the length prefix changes its form.
        let fill = *pick(&mut rng, &[0u8, 1, 2, 0x7f, 0x80, 0x81, 0x82]);
        let total = *pick(&mut rng, &[130usize, 200, 256, 260, 300, 384, 512, 520, 66_000]);
        let mut body = vec![fill; total];
        if rng.gen() {
            let n = rng.gen_range(1..6);
            for _ in 0..n {
                let i = rng.gen_range(0..total);
                body[i] = rng.gen_range(0x7e..0x84);
            }
        }
        let nparts = rng.gen_range(1..=4usize);
        for _ in 0..if total > 1000 { 12 } else { 60 } {
            let mut cuts: Vec<usize> = (1..nparts)
                .map(|_| {
                    let x = *pick(&mut rng, &[0i64, 1, 2, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 65534, 65535, 65536]) + rng.gen_range(-1..=1);
                    let x = x.clamp(0, total as i64) as usize;
                    if rng.gen() { x } else { total - x }
                })
                .collect();
            cuts.push(0);
            cuts.push(total);
            cuts.sort();
            let parts: Vec<Vec<u8>> = cuts.windows(2).map(|w| body[w[0]..w[1]].to_vec()).collect();
            one(mon, "d", parts);
        }
        // Many parts
        if c % 4 == 0 {
            let n = *pick(&mut rng, &[126usize, 127, 128, 129, 255, 256, 257, 300, 512, 600]);
            one(mon, "many", vec![vec![fill]; n]);
            one(mon, "many", vec![vec![]; n]);
            one(mon, &"x".repeat(n), vec![vec![fill]]);
        }
        if c % 10 == 0 {
            for l in [4095usize, 4096, 4097, 8191, 8192, 65_535, 65_536, 70_000, 1 << 24] {
                if l > 1 << 20 && c > 0 {
                    continue;
                }
                let b = vec![fill; l];
                mon.check(U256::hash_data(&b).to_bytes() == oracle_hash_data(&b), "hash-data-changed", || json!(l));
                one(mon, "big", vec![b, vec![1]]);
            }
        }
        // hash_data
        mon.check(U256::hash_data(&body).to_bytes() == oracle_hash_data(&body), "hash-data-changed", || json!(total));
        let h1 = U256::hash_data(&body);
        let mut b2 = body.clone();
        b2.push(0);
        mon.check(h1 == U256::hash_data(&body) && h1 != U256::hash_data(&b2) && h1 != U256::hash_data(&body[..total - 1]), "hash-data", || json!(total));
    }
    for c in 0..mon.n(100, 2000) {
        let Some(mut rng) = mon.begin(format!("hashmap-{c}")) else { continue };
        let n = rng.gen_range(0..12);
        let mut pairs: Vec<(u32, String)> = (0..n).map(|i| (i * 7, rnd_string(&mut rng, 3))).collect();
        let mk = |pairs: &Vec<(u32, String)>| {
            let mut hm = HashMap::new();
            for (k, v) in pairs {
                hm.insert(*k, v.clone());
            }
            hm
        };
        let h = U256::hash_domain_hashmap("x", &mk(&pairs));
        mon.nontrivial(&pairs);
        for _ in 0..5 {
            pairs.shuffle(&mut rng);
            let h2 = U256::hash_domain_hashmap("x", &mk(&pairs));
            mon.check(h == h2, "hashmap-hash-depends-on-order", || json!(pairs));
        }
        if n > 0 {
            let mut p2 = pairs.clone();
            p2[0].1.push('x');
            let h2 = U256::hash_domain_hashmap("x", &mk(&p2));
            let h3 = U256::hash_domain_hashmap("x", &mk(&pairs[1..].to_vec()));
            let h4 = U256::hash_domain_hashmap("y", &mk(&pairs));
            mon.check(h != h2 && h != h3 && h != h4, "hashmap-hash-collision", || json!(pairs));
        }
        // The hash is that of the sorted, serialized pairs.
        let mut ser: Vec<[Vec<u8>; 2]> = pairs.iter().map(|(k, v)| [rmp_serde::to_vec(k).unwrap(), rmp_serde::to_vec(v).unwrap()]).collect();
        ser.sort();
        mon.check(h.to_bytes() == oracle_hash("x", &ser.concat()), "hashmap-hash-changed", || json!(pairs));
        let names: Vec<String> = pairs.iter().map(|p| p.1.clone()).collect();
        let ser: Vec<Vec<u8>> = names.iter().map(|p| rmp_serde::to_vec(p).unwrap()).collect();
        mon.check(U256::from_vec("v", &names).to_bytes() == oracle_hash("v", &ser), "vec-hash-changed", || json!(names));
        // Vectors: order counts
        // Vectors: order counts
        let v: Vec<u32> = pairs.iter().map(|p| p.0).collect();
        let hv = U256::from_vec("x", &v);
        let mut v2 = v.clone();
        v2.reverse();
        mon.check((v == v2) == (hv == U256::from_vec("x", &v2)) && hv == U256::from_vec("x", &v), "vec-hash", || json!(v));
    }
    if mon.begin("hash-data-lengths".into()).is_some() {
        for l in 0..1200usize {
            let b: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
            mon.check(U256::hash_data(&b).to_bytes() == oracle_hash_data(&b), "hash-data-changed", || json!(l));
        }
    }
    // Lists of node ids.
    for c in 0..mon.n(400, 10_000) {
        let Some(mut rng) = mon.begin(format!("lists-{c}")) else { continue };
        let big = if c % 5 == 0 { rng.gen_range(20..80) } else { 6 };
        let pool: Vec<NodeID> = (0..big).map(|_| U256::from(<[u8; 32]>::try_from(rnd_bytes(&mut rng, 32)).unwrap())).collect();
        let mut sub = |max: usize| -> Vec<NodeID> {
            let mut p = pool.clone();
            p.shuffle(&mut rng);
            p.truncate(rng.gen_range(0..=max));
            p
        };
        let (a, b) = (sub(big), sub(big));
        let idx = |v: &[NodeID]| v.iter().map(|n| pool.iter().position(|p| p == n).unwrap()).collect::<Vec<_>>();
        mon.nontrivial((idx(&a), idx(&b)));
        let (na, nb) = (NodeIDs(a.clone()), NodeIDs(b.clone()));
        let det = || json!({"a": idx(&a), "b": idx(&b)});
        let mut x = na.clone();
        let r = x.remove_missing(&nb);
        let keep: Vec<NodeID> = a.iter().filter(|n| b.contains(n)).cloned().collect();
        let gone: Vec<NodeID> = a.iter().filter(|n| !b.contains(n)).cloned().collect();
        mon.check(x.0 == keep && r.0 == gone, "remove_missing", det);
        let mut x = na.clone();
        let r = x.remove_existing(&nb);
        mon.check(x.0 == gone && r.0 == keep, "remove_existing", det);
        mon.check(na.contains_any(&nb) == !keep.is_empty(), "contains_any", det);
        mon.check(na.contains_all(&nb) == b.iter().all(|n| a.contains(n)), "contains_all", det);
        let mut x = na.clone();
        x.merge(nb.clone());
        let mut want = a.clone();
        want.extend(b.iter().filter(|n| !a.contains(n)));
        mon.check(x.0 == want, "merge", det);
        let from = rng.gen_range(0..=a.len());
        let len = rng.gen_range(0..=a.len() - from);
        mon.check(na.slice(from, len).0 == a[from..from + len], "slice", det);
        if c < 2 {
            mon.sample(det());
        }
    }
}

// ---------------------------------------------------------------- S01
fn key(rng: &mut StdRng) -> String {
    if rng.gen_range(0..3) > 0 {
        return pick(rng, &["nodeConfig", "gossip_events", "dht_storage", "a", "a_b", "b", "", "x.yaml", "X"]).to_string();
    }
    let ch: Vec<char> = "abcXYZ019_-. =é世".chars().collect();
    (0..rng.gen_range(1..12)).map(|_| *pick(rng, &ch)).collect()
}
fn value(rng: &mut StdRng) -> String {
    let len = *pick(rng, &[0usize, 1, 3, 10, 100, 1000, 5000, 9000]);
    if rng.gen_range(0..20) == 0 {
        return "x".repeat(200_000);
    }
    rnd_string(rng, len)
}

fn s01(mon: &mut Mon) {
    mon.rule("random histories of set/get/remove over handles, clones and reopened handles of several storages with names that share prefixes; non-trivial when a key is overwritten or removed and read again by another handle; distinct by operation sequence");
    mon.require("reads", 2000);
    mon.require("overwrites", 100);
    for c in 0..mon.n(150, 2500) {
        let Some(mut rng) = mon.begin(format!("history-{c}")) else { continue };
        let file = c % 3 != 0;
        let scratch = Scratch::new();
        // Names don't contain the separator '_'.
        let bases: Vec<&str> = if file { vec!["fledger2", "one", "on", "one.", ""] } else { vec!["x"] };
        let nb = rng.gen_range(1..=bases.len());
        let bases = &bases[bases.len() - nb..];
        let open = |b: &str| -> Box<dyn DataStorage + Send> { Box::new(DataStorageFile::new(scratch.path(), b.to_string())) };
        let mut handles: Vec<(usize, Box<dyn DataStorage + Send>)> = bases
            .iter()
            .enumerate()
            .map(|(i, b)| (i, if file { open(b) } else { DataStorageTemp::new_box() as Box<dyn DataStorage + Send> }))
            .collect();
        let mut model: BTreeMap<(usize, String), String> = BTreeMap::new();
        let mut log = vec![];
        let mut keys: Vec<String> = (0..6).map(|_| key(&mut rng)).collect();
        if rng.gen() {
            // A key which differs only by the case of a letter, or by an ending.
            let k = pick(&mut rng, &keys).clone();
            let (u, l) = (k.to_uppercase(), k.to_lowercase());
            keys.push(if u != k && rng.gen() { u } else { l });
            keys.push(format!("{k}.yaml"));
            keys.push(format!("{k} "));
        }
        for _ in 0..60 {
            let h = rng.gen_range(0..handles.len());
            let base = handles[h].0;
            let k = pick(&mut rng, &keys).clone();
            match rng.gen_range(0..10) {
                0..=3 => {
                    let v = value(&mut rng);
                    log.push(format!("h{h} b{base} set {k:?} {}B", v.len()));
                    let r = handles[h].1.set(&k, &v);
                    mon.check(r.is_ok(), "set-fails", || json!({"log": log, "err": format!("{r:?}")}));
                    if model.insert((base, k.clone()), v).is_some() {
                        mon.count("overwrites", 1);
                    }
                }
                4 => {
                    log.push(format!("h{h} b{base} remove {k:?}"));
                    let r = handles[h].1.remove(&k);
                    if model.remove(&(base, k.clone())).is_some() {
                        mon.check(r.is_ok(), "remove-fails", || json!({"log": log, "err": format!("{r:?}")}));
                        mon.count("removes", 1);
                    }
                }
                5 => {
                    let cl = handles[h].1.clone();
                    log.push(format!("clone h{h} -> h{}", handles.len()));
                    handles.push((base, cl));
                }
                6 if file => {
                    log.push(format!("reopen {:?} as h{}", bases[base], handles.len()));
                    handles.push((base, open(bases[base])));
                }
                7 if handles.len() > bases.len() => {
                    let i = rng.gen_range(bases.len()..handles.len());
                    log.push(format!("drop h{i}"));
                    handles.remove(i);
                }
                _ => (),
            }
            // Read back through any handle.
            let h = rng.gen_range(0..handles.len());
            let base = handles[h].0;
            let k = if rng.gen() { k } else { pick(&mut rng, &keys).clone() };
            let got = handles[h].1.get(&k);
            mon.count("reads", 1);
            let want = model.get(&(base, k.clone())).cloned().unwrap_or_default();
            mon.check(got.as_ref().ok() == Some(&want), "get-differs", || {
                json!({"log": log, "handle": h, "key": k, "got": format!("{:?}", got.map(|g| g.chars().take(80).collect::<String>())), "want_len": want.len()})
            });
        }
        mon.nontrivial(&log);
        if c < 2 {
            mon.sample(json!(log));
        }
        mon.check_panics("storage");
    }
    // Clones used by concurrent threads.
    for c in 0..mon.n(24, 200) {
        let Some(mut rng) = mon.begin(format!("threads-{c}")) else { continue };
        let scratch = Scratch::new();
        let file = c % 2 == 1;
        let ds: Box<dyn DataStorage + Send> = if file { Box::new(DataStorageFile::new(scratch.path(), "t".into())) } else { DataStorageTemp::new_box() };
        let n = rng.gen_range(2..=8);
        let rounds = if file { 60 } else { 3000 };
        let pad = if file { 20_000 } else { 20 };
        let hs: Vec<_> = (0..n)
            .map(|t: u32| {
                let mut d = ds.clone();
                std::thread::spawn(move || -> (u64, Vec<String>) {
                    let mut errs = vec![];
                    let mut ok = 0;
                    for i in 0..rounds {
                        let v = format!("{t}:{i}:{}", "p".repeat(pad));
                        if let Err(e) = d.set(&format!("own{t}"), &v) {
                            errs.push(format!("set: {e}"));
                            continue;
                        }
                        if let Err(e) = d.set("shared", &v) {
                            errs.push(format!("set shared: {e}"));
                        }
                        match d.get(&format!("own{t}")) {
                            Ok(g) if g == v => ok += 1,
                            Ok(g) => errs.push(format!("thread {t} wrote {i} and read {:?}", g.chars().take(12).collect::<String>())),
                            Err(e) => errs.push(format!("get: {e}")),
                        }
                        match d.get("shared") {
                            Ok(g) => {
                                if g.len() < pad || !g.ends_with('p') || g.split(':').count() != 3 {
                                    errs.push(format!("shared is torn: {} bytes", g.len()));
                                }
                            }
                            Err(e) => errs.push(format!("get shared: {e}")),
                        }
                    }
                    (ok, errs)
                })
            })
            .collect();
        let mut errs = vec![];
        for h in hs {
            let (ok, e) = h.join().unwrap();
            mon.count("reads", ok);
            mon.count("concurrent_reads", ok);
            errs.extend(e);
        }
        mon.nontrivial((c, n));
        mon.check(errs.is_empty(), "concurrent-use", || json!({"file": file, "threads": n, "errors": errs.len(), "first": errs[..errs.len().min(5)]}));
    }
}

// ---------------------------------------------------------------- S02
fn s02_child() -> ! {
    let a: Vec<String> = std::env::args().collect();
    let (dir, key, len) = (&a[2], &a[3], a[4].parse::<usize>().unwrap());
    let mut ds = DataStorageFile::new(dir.clone(), "n".into());
    let r = ds.set(key, &val(1, len));
    println!("{}", if r.is_ok() { "OK" } else { "ERR" });
    std::process::exit(0);
}
fn val(gen: u32, len: usize) -> String {
    let c = ["o", "N"][gen as usize % 2];
    let mut s = format!("{gen}:{len}:");
    s.push_str(&c.repeat(len));
    s.push_str(":end\u{e9}");
    s
}

fn s02(mon: &mut Mon) {
    mon.level = "fault_enumeration";
    mon.rule("every file-system call that one set() makes below the storage directory is, in turn, the place where the process dies (before, after, or half-way through it), or where the disk fails or fills up, for old and new values of several sizes; non-trivial when the fault was injected; distinct by (sizes, mode, call)");
    mon.assume("A crash ends the process; what the kernel accepted is kept (no power loss).");
    mon.assume("The file-system calls go through libc, where they are intercepted (LD_PRELOAD).");
    mon.require("faults_injected", 50);
    let so = mon::verif_dir().join("target/fault.so");
    if !so.exists() {
        eprintln!("no {}", so.display());
        std::process::exit(2);
    }
    let exe = std::env::current_exe().unwrap();
    let sizes: Vec<(Option<usize>, usize)> = if mon.quick() {
        vec![(None, 10), (Some(10), 3), (Some(3), 100), (Some(100), 0), (Some(9000), 8192), (Some(100_000), 300_000)]
    } else {
        let s = [0usize, 1, 10, 511, 4096, 8192, 8193, 65_536, 1_000_000];
        let mut v: Vec<(Option<usize>, usize)> = s.iter().map(|s| (None, *s)).collect();
        for a in s {
            for b in s {
                v.push((Some(a), b));
            }
        }
        v
    };
    for (old, new) in sizes {
        for mode in ["before", "after", "half", "eio", "enospc", "short"] {
            let mut at = 0;
            loop {
                at += 1;
                let Some(_) = mon.begin(format!("{old:?}-{new}-{mode}-{at}")) else { break };
                let scratch = Scratch::new();
                let dir = scratch.sub("st");
                let oldv = old.map(|l| val(0, l));
                let mut ds = DataStorageFile::new(dir.clone(), "n".into());
                ds.set("other", "keep").unwrap();
                if let Some(o) = &oldv {
                    ds.set("k", o).unwrap();
                }
                let log = scratch.sub("log");
                let out = Command::new(&exe)
                    .args(["child", &dir, "k", &new.to_string()])
                    .env("LD_PRELOAD", &so)
                    .env("FAULT_DIR", &dir)
                    .env("FAULT_AT", at.to_string())
                    .env("FAULT_MODE", mode)
                    .env("FAULT_LOG", &log)
                    .output()
                    .unwrap();
                let calls = std::fs::read_to_string(&log).unwrap_or_default();
                let ncalls = calls.lines().count();
                if ncalls == 0 {
                    mon.violation("no-call-intercepted", json!("the interposer saw no call: the harness must be adapted"));
                    break;
                }
                if ncalls < at {
                    break;
                }
                mon.count("faults_injected", 1);
                mon.nontrivial((old, new, mode, at));
                let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
                let newv = val(1, new);
                // What a restarted node sees.
                let ds2 = DataStorageFile::new(dir.clone(), "n".into());
                let got = ds2.get("k");
                let desc = |g: &Result<String, _>| match g {
                    Ok(g) if Some(g) == oldv.as_ref() => "old".to_string(),
                    Ok(g) if *g == newv => "new".into(),
                    Ok(g) => format!("{} bytes: {:?}", g.len(), g.chars().take(12).collect::<String>()),
                    Err::<String, flarch::data_storage::StorageError>(e) => format!("error {e}"),
                };
                let det = || json!({"old_len": old, "new_len": new, "mode": mode, "call": at, "calls": calls.lines().collect::<Vec<_>>(), "set_returned": said, "exit": out.status.code(), "value_is": desc(&got)});
                let is_new = got.as_ref().ok() == Some(&newv);
                let is_old = got.as_ref().ok() == Some(&oldv.clone().unwrap_or_default());
                mon.check(is_new || is_old, "value-lost-or-torn", det);
                mon.check(said != "OK" || is_new, "set-ok-but-not-stored", det);
                mon.check(ds2.get("other").ok().as_deref() == Some("keep"), "other-key-damaged", det);
                if at == 1 && mode == "after" {
                    mon.sample(det());
                }
                // The storage stays usable.
                let mut ds3 = DataStorageFile::new(dir.clone(), "n".into());
                let r = ds3.set("k", "again");
                mon.check(r.is_ok() && ds3.get("k").ok().as_deref() == Some("again"), "unusable-after-fault", det);
            }
        }
    }
}

// ---------------------------------------------------------------- T01
fn t01(mon: &mut Mon) {
    mon.rule("minutes of virtual time with subscribers of all kinds, added at random times; intervals with first ticks in the past, now and in the future; non-trivial when ticks were seen; distinct by (duration, kinds, start)");
    mon.require("seconds", 1000);
    mon.require("minutes", 10);
    mon.require("interval_ticks", 1000);
    mon.require("late_polls", 100);
    mon.require("stalls", 1);
    for c in 0..mon.n(20, 300) {
        let Some(mut rng) = mon.begin(format!("timer-{c}")) else { continue };
        let rt = rt_paused();
        let secs: u64 = rng.gen_range(100..900);
        let starts: Vec<u64> = (0..5).map(|_| rng.gen_range(0..90)).collect();
        mon.nontrivial((secs, &starts));
        #[derive(Clone, Debug, PartialEq)]
        struct Tick(u8);
        let mut stalls = 0;
        let (all, subs) = rt.block_on(async {
            let t0 = tokio::time::Instant::now();
            let mut timer = Timer::start().await.unwrap();
            let (mut all, _) = timer.broker.get_tap_out().await.unwrap();
            let mut subs = vec![];
            let mut order: Vec<usize> = (0..5).collect();
            order.sort_by_key(|i| starts[*i]);
            let mut got: Vec<(u64, TimerMessage)> = vec![];
            for i in order {
                if c == 1 && i == 2 {
                    // The machine hangs for some seconds, e.g. during the suspension of a laptop.
                    std::thread::sleep(Duration::from_millis(6000));
                    stalls += 1;
                }
                let at = Duration::from_millis(starts[i] * 1000 + 500);
                while let Ok(Some(m)) = tokio::time::timeout_at(t0 + at, all.recv()).await {
                    got.push((t0.elapsed().as_millis() as u64, m));
                }
                let mut b: Broker<Tick, ()> = Broker::new();
                let (tap, _) = b.get_tap_in().await.unwrap();
                let tb = timer.broker.clone();
                match i {
                    0 => Timer::second(tb, b.clone(), Tick(0)).await.unwrap(),
                    1 => Timer::minute(tb, b.clone(), Tick(1)).await.unwrap(),
                    2 => timer.tick_second(b.clone(), Tick(2)).await.unwrap(),
                    3 => timer.tick_minute(b.clone(), Tick(3)).await.unwrap(),
                    _ => timer.tick(b.clone(), Tick(4), TimerMessage::Minute).await.unwrap(),
                }
                subs.push((i, b, tap));
            }
            let end = t0 + Duration::from_millis(secs * 1000 + 500);
            while let Ok(Some(m)) = tokio::time::timeout_at(end, all.recv()).await {
                got.push((t0.elapsed().as_millis() as u64, m));
            }
            let subs: Vec<(usize, Vec<Tick>)> = subs
                .into_iter()
                .map(|(i, _b, mut tap)| {
                    let mut v = vec![];
                    while let Ok(m) = tap.try_recv() {
                        v.push(m);
                    }
                    (i, v)
                })
                .collect();
            (got, subs)
        });
        let ns = all.iter().filter(|(_, m)| *m == TimerMessage::Second).count() as u64;
        let nm = all.iter().filter(|(_, m)| *m == TimerMessage::Minute).count() as u64;
        mon.count("stalls", stalls);
        mon.count("seconds", ns);
        mon.count("minutes", nm);
        // One tick per second; whether the first comes immediately is left open.
        mon.check(ns == secs || ns == secs + 1, "seconds-count", || json!({"secs": secs, "ticks": ns}));
        let mut since = 0;
        let mut bad = None;
        let mut last = 0;
        for (at, m) in &all {
            match m {
                TimerMessage::Second => {
                    since += 1;
                    if since > 60 {
                        bad = Some(json!({"at": at, "more than 60 seconds without minute": since}));
                    }
                    if last > 0 && (*at < last + 900 || *at > last + 1100) {
                        bad = Some(json!({"second at": at, "previous": last}));
                    }
                    last = *at;
                }
                TimerMessage::Minute => {
                    if since != 60 {
                        bad = Some(json!({"at": at, "seconds before minute": since}));
                    }
                    since = 0;
                }
            }
        }
        mon.check(bad.is_none(), "tick-order", || bad.clone().unwrap());
        for (i, v) in &subs {
            let start = starts[*i] * 1000 + 500;
            let kind = if i % 2 == 0 && *i < 4 { TimerMessage::Second } else { TimerMessage::Minute };
            let want = all.iter().filter(|(at, m)| *at > start && *m == kind).count();
            mon.check(v.len() == want && v.iter().all(|t| t.0 as usize == *i), "subscriber-ticks", || json!({"subscriber": i, "start": start, "got": v.len(), "want": want}));
        }
        if c < 2 {
            mon.sample(json!({"secs": secs, "seconds": ns, "minutes": nm, "subscribers": subs.iter().map(|(i, v)| (i, v.len())).collect::<Vec<_>>()}));
        }
        mon.check_panics("timer");
    }
    for c in 0..mon.n(300, 5000) {
        let Some(mut rng) = mon.begin(format!("interval-{c}")) else { continue };
        let off = *pick(&mut rng, &[-100_000i64, -1000, -10, -1, 0, 1, 5, 100, 1000, 60_000]);
        let dur = *pick(&mut rng, &[1u64, 2, 10, 1000, 60_000]);
        mon.nontrivial((off, dur));
        let rt = rt_paused();
        let r = guarded(|| {
            rt.block_on(async {
                let t0 = tokio::time::Instant::now();
                let first = now() + off;
                let mut i = Interval::new(first, Duration::from_millis(dur));
                let mut v = vec![];
                for _ in 0..20 {
                    // Virtual time: far beyond any tick.
                    let Ok(Some(n)) = tokio::time::timeout(Duration::from_secs(3600), i.next()).await else {
                        break;
                    };
                    v.push((n - first, t0.elapsed().as_millis() as i64));
                }
                v
            })
        });
        mon.check_panics("interval");
        if let Some(v) = r {
            mon.count("interval_ticks", v.len() as u64);
            let nominal = v.iter().enumerate().all(|(i, (n, _))| *n == i as i64 * dur as i64);
            if !mon.check(v.len() == 20, "interval-doesnt-tick", || json!({"offset": off, "dur": dur, "ticks in an hour": v.len()})) {
                continue;
            }
            // The paused clock only moves while waiting. Some real milliseconds pass between the readings.
            let t_first = v[0].1;
            let start_ok = t_first <= off.max(0) + 2 && t_first >= off.max(0) - 200.min(off.max(0)) ;
            let gap_ok = v.windows(2).all(|w| {
                let d = w[1].1 - w[0].1;
                d >= dur as i64 - 2 && d <= dur as i64 + 2
            });
            mon.check(nominal && start_ok && gap_ok, "interval-ticks", || json!({"offset": off, "dur": dur, "ticks(nominal,at)": v}));
        }
    }
    for c in 0..mon.n(200, 3000) {
        let Some(mut rng) = mon.begin(format!("interval-late-{c}")) else { continue };
        // The reader is late: it still gets one tick per period, with the nominal times.
        let dur = *pick(&mut rng, &[2u64, 10, 1000, 60_000]);
        let busy: Vec<(usize, u64)> = (0..4).map(|_| (rng.gen_range(1..10), rng.gen_range(1..=7 * dur))).collect();
        mon.nontrivial((dur, &busy));
        let rt = rt_paused();
        let r = guarded(|| {
            rt.block_on(async {
                let t0 = tokio::time::Instant::now();
                let first = now();
                let mut i = Interval::new(first, Duration::from_millis(dur));
                let mut v = vec![];
                for (n, wait) in &busy {
                    for _ in 0..*n {
                        match tokio::time::timeout(Duration::from_secs(3600), i.next()).await {
                            Ok(Some(n)) => v.push((n - first, t0.elapsed().as_millis() as i64)),
                            _ => return v,
                        }
                    }
                    tokio::time::sleep(Duration::from_millis(*wait)).await;
                    v.push((-1, t0.elapsed().as_millis() as i64));
                }
                v
            })
        });
        mon.check_panics("interval");
        let Some(v) = r else { continue };
        mon.count("late_polls", busy.len() as u64);
        // Every tick comes at its nominal time, or as soon as the reader is back.
        let mut back = 0;
        let mut k = 0i64;
        let mut ok = true;
        for (n, at) in &v {
            if *n == -1 {
                back = *at;
                continue;
            }
            let due = (k * dur as i64).max(back);
            ok &= *n == k * dur as i64 && *at >= due - 2 && *at <= due + 2;
            k += 1;
        }
        let total: usize = busy.iter().map(|b| b.0).sum();
        mon.check(ok && k as usize == total, "interval-late-reader", || json!({"dur": dur, "reads and pauses": busy, "ticks(nominal,at), -1: reader back": v}));
    }
    if mon.begin("interval-now".into()).is_some() {
        // "now" is read twice: the second may be one millisecond later.
        let rt = rt_current();
        let n = mon.n(3_000_000, 30_000_000);
        let _ = guarded(|| {
            rt.block_on(async {
                for _ in 0..n {
                    let _ = Interval::new_interval(Duration::from_secs(1));
                }
            })
        });
        mon.count("intervals_created", n as u64);
        mon.check_panics("interval");
    }
}

// ---------------------------------------------------------------- F01
fn flags_v2(bits: u32) -> String {
    let n = ["ENABLE_STAT", "ENABLE_RAND", "ENABLE_GOSSIP", "ENABLE_PING", "ENABLE_WEBPROXY", "ENABLE_WEBPROXY_REQUESTS"];
    (0..6).filter(|i| bits & (1 << i) != 0).map(|i| n[i]).collect::<Vec<_>>().join(" | ")
}
fn yaml_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn info_v2(name: &str, client: &str, pk: &[u8], bits: Option<u32>, indent: &str) -> String {
    let mut s = format!("{indent}name: {}\n{indent}client: {}\n{indent}pubkey: {}\n", yaml_str(name), yaml_str(client), yaml_str(&BASE64_STANDARD.encode(pk)));
    if let Some(b) = bits {
        s.push_str(&format!("{indent}modules: \"{}\"\n", flags_v2(b)));
    }
    s
}

fn mutate(rng: &mut StdRng, s: &str) -> String {
    let mut lines: Vec<String> = s.lines().map(|l| l.to_string()).collect();
    match rng.gen_range(0..8) {
        0 => {
            let i = rng.gen_range(0..lines.len());
            lines.remove(i);
        }
        1 => {
            let i = rng.gen_range(0..lines.len());
            let l = lines[i].clone();
            lines.insert(i, l);
        }
        2 => {
            let i = rng.gen_range(0..=s.chars().count());
            return s.chars().take(i).collect();
        }
        3 => {
            // Shorten or lengthen a hexadecimal or base64 value.
            let i = rng.gen_range(0..lines.len());
            if let Some((k, v)) = lines[i].clone().split_once(": ") {
                let n = rng.gen_range(0..=v.len() / 2) * 2;
                let v2 = v.trim_matches('"');
                let v2 = match rng.gen_range(0..4) {
                    0 => v2.chars().take(n).collect::<String>(),
                    1 => format!("{v2}00"),
                    2 => String::new(),
                    _ => format!("{v2}{v2}"),
                };
                lines[i] = format!("{k}: \"{v2}\"");
            }
        }
        4 => {
            let v = rng.gen_range(0..5);
            let w = rng.gen_range(0..5);
            return s.replace(&format!("V{v}"), &format!("V{w}")).replace("V2", &format!("V{w}"));
        }
        5 => {
            let mut ch: Vec<char> = s.chars().collect();
            for _ in 0..rng.gen_range(1..4) {
                let i = rng.gen_range(0..ch.len());
                ch[i] = rnd_string(rng, 1).chars().next().unwrap();
            }
            return ch.into_iter().collect();
        }
        6 => {
            return pick(rng, &["", "---\n", "NodeInfoV1: {}", "---\nNodeInfoV1: {}\n", "NodeInfoV2: {}", "NodeInfoV3: {}", "NodeConfigV1: {}", "NodeConfigV2:\n  info:\n    NodeInfoV1: {}\n  keypair: \"\"\n", "[]", "1", "NodeInfoV3: [a, b, \"\", 0]", "NodeInfoV3:\n  name: \"\"\n  client: \"\"\n  pubkey: \"\"\n  modules: \"\"\n"]).to_string()
        }
        _ => return rnd_string(rng, 40),
    }
    lines.join("\n")
}

fn f01(mon: &mut Mon) {
    mon.rule("configurations with random names, clients and capabilities, written in every supported version of the format, and mutations of these; non-trivial when the text was decoded by a version's decoder or rejected; distinct by text");
    mon.require("decoded_old", 100);
    mon.require("decoded_mutated", 300);
    mon.require("rejected", 300);
    for c in 0..mon.n(150, 3000) {
        let Some(mut rng) = mon.begin(format!("config-{c}")) else { continue };
        let mut nc = NodeConfig::new();
        let n = rng.gen_range(0..20);
        nc.info.name = rnd_string(&mut rng, n);
        let n = rng.gen_range(0..10);
        nc.info.client = rnd_string(&mut rng, n);
        nc.info.modules = Modules::from_bits_truncate(rng.gen());
        let txt = nc.encode();
        mon.nontrivial(&txt);
        let same = |a: &NodeConfig, b: &NodeConfig| a.keypair == b.keypair && a.info.pubkey == b.info.pubkey && a.info.name == b.info.name && a.info.client == b.info.client && a.info.modules == b.info.modules && a.info.get_id() == b.info.get_id();
        let d = NodeConfig::decode(&txt);
        mon.check(same(&nc, &d), "config-roundtrip", || json!(txt));
        mon.check(d.encode() == txt, "config-encode-stable", || json!([txt, d.encode()]));
        let it = nc.info.encode();
        match NodeInfo::decode(&it) {
            Ok(i) => {
                let ok = i.pubkey == nc.info.pubkey && i.name == nc.info.name && i.client == nc.info.client && i.modules == nc.info.modules && i.get_id() == nc.info.get_id();
                mon.check(ok, "info-roundtrip", || json!(it));
            }
            Err(e) => mon.violation("info-roundtrip", json!({"yaml": it, "err": e.to_string()})),
        }
        let j = serde_json::to_string(&nc.info).ok().and_then(|j| serde_json::from_str::<NodeInfo>(&j).ok());
        mon.check(j.map(|i| i.pubkey == nc.info.pubkey && i.modules == nc.info.modules).unwrap_or(false), "info-json-roundtrip", || json!(it));
        // The identity is the public key, which belongs to the private one.
        let msg: [u8; 32] = rnd_bytes(&mut rng, 32).try_into().unwrap();
        let sig = d.sign(msg);
        mon.check(nc.info.verify(&msg, &sig), "sign-after-decode", || json!(txt));
        // Longer messages: every byte counts.
        {
            let len = rng.gen_range(1..200);
            let long = [msg.to_vec(), rnd_bytes(&mut rng, len)].concat();
            mon.check(!nc.info.verify(&long, &sig) && !nc.info.verify(&msg[..31], &sig) && !nc.info.verify(&[], &sig), "forged-signature-length", || json!({"len": long.len(), "yaml": txt}));
        }
        let mut m2 = msg;
        m2[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
        let mut s2 = sig.clone();
        let i = rng.gen_range(0..s2.len());
        s2[i] ^= 1 << rng.gen_range(0..8);
        let other = NodeConfig::new();
        mon.check(other.info.get_id() != nc.info.get_id(), "fresh-identity-repeats", || json!(it));
        let len = rng.gen_range(0..130);
        let junk = rnd_bytes(&mut rng, len);
        mon.check(!nc.info.verify(&m2, &sig) && !nc.info.verify(&msg, &s2) && !other.info.verify(&msg, &sig) && !nc.info.verify(&msg, &sig[..sig.len() - 1]) && !nc.info.verify(&msg, &junk), "forged-signature", || json!(txt));

        if c % 10 == 0 {
            // Values with special bytes at their ends.
            for k in 0..4000 {
                let x = NodeConfig::new();
                let pick_it = match (c / 10) % 4 {
                    0 => x.keypair[0] == 0,
                    1 => *x.keypair.last().unwrap() == 0,
                    2 => x.info.pubkey[0] == 0,
                    _ => *x.info.pubkey.last().unwrap() == 0,
                };
                if pick_it {
                    nc.keypair = x.keypair;
                    nc.info.pubkey = x.info.pubkey;
                    mon.count("special_keys", 1);
                    let d = NodeConfig::decode(&nc.encode());
                    mon.check(same(&nc, &d), "config-roundtrip", || json!(nc.encode()));
                    break;
                }
                if k % 500 == 499 && mon.quick() {
                    break;
                }
            }
        }
        // Old versions.
        let bits: u32 = rng.gen_range(0..64);
        let with = rng.gen_range(0..4) > 0;
        let v1 = format!("---\nNodeConfigV1:\n  info:\n{}  keypair: {}\n", info_v2(&nc.info.name, &nc.info.client, &nc.info.pubkey, with.then_some(bits), "    "), yaml_str(&BASE64_STANDARD.encode(&nc.keypair)));
        let want = if with { bits } else { 0x3f };
        let d = NodeConfig::decode(&v1);
        mon.count("decoded_old", 1);
        let ok = d.keypair == nc.keypair && d.info.pubkey == nc.info.pubkey && d.info.name == nc.info.name && d.info.client == nc.info.client && d.info.modules.bits() == want && d.info.get_id() == nc.info.get_id();
        mon.check(ok, "old-config-migrates", || json!({"yaml": v1, "decoded": d.encode()}));
        let again = NodeConfig::decode(&d.encode());
        mon.check(same(&d, &again), "migrated-roundtrip", || json!(d.encode()));
        let v2 = format!("---\nNodeInfoV2:\n{}", info_v2(&nc.info.name, &nc.info.client, &nc.info.pubkey, with.then_some(bits), "  "));
        match NodeInfo::decode(&v2) {
            Ok(i) => {
                mon.check(i.pubkey == nc.info.pubkey && i.name == nc.info.name && i.client == nc.info.client && i.modules.bits() == want, "old-info-migrates", || json!(v2));
            }
            Err(e) => mon.violation("old-info-migrates", json!({"yaml": v2, "err": e.to_string()})),
        }
        // Anything else: an error or a usable value, no crash.
        for _ in 0..20 {
            let src = *pick(&mut rng, &[&txt, &it, &v1, &v2]);
            let m = mutate(&mut rng, src);
            let r = guarded(|| match NodeInfo::decode(&m) {
                Ok(i) => {
                    let _ = (i.get_id(), i.encode(), format!("{i:?}"), i == nc.info, i.verify(&msg, &sig));
                    true
                }
                Err(_) => false,
            });
            mon.check_panics("decode-info");
            let r2 = guarded(|| {
                let d = NodeConfig::decode(&m);
                let _ = (d.info.get_id(), d.encode());
            });
            mon.check_panics("decode-config");
            if r2.is_some() {
                mon.nontrivial(&m);
            }
            mon.count(if r == Some(true) { "decoded_mutated" } else { "rejected" }, 1);
        }
        if c < 2 {
            mon.sample(json!(v1));
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") {
        s02_child();
    }
    main_with(|mon, id| match id {
        "I01" => i01(mon),
        "S01" => s01(mon),
        "S02" => s02(mon),
        "T01" => t01(mon),
        "F01" => f01(mon),
        _ => panic!("unknown property"),
    })
}
