//! C01..C03: signatures and conditions; C04, C05: Flos.
use std::collections::{BTreeSet, HashMap};

use bytes::Bytes;
use flarch::nodeids::U256;
use flcrypto::{
    access::{Badge, BadgeID, BadgeLink, Condition, ConditionLink, ConditionSignature, VersionSpec},
    signer::{KeyPairID, Signature, Signer, SignerTrait, Verifier, VerifierTrait},
    signer_ed25519::SignerEd25519,
    tofrombytes::ToFromBytes,
};
use flmodules::{
    dht_storage::core::{Cuckoo, FloConfig, RealmConfig},
    flo::{
        blob::{Blob, FloBlob},
        flo::{Flo, FloWrapper},
        realm::{FloRealm, Realm, RealmID},
    },
};
use mon::{
    main_with, rt_current,
    util::{guarded, hex, pick, rnd_bytes, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

struct Party {
    signers: Vec<Signer>,
    ids: Vec<KeyPairID>,
}
impl Party {
    fn new(n: usize) -> Self {
        let signers: Vec<Signer> = (0..n).map(|_| SignerEd25519::new()).collect();
        Self {
            ids: signers.iter().map(|s| s.get_id()).collect(),
            signers,
        }
    }
    fn who(&self, id: &KeyPairID) -> usize {
        self.ids.iter().position(|i| i == id).unwrap()
    }
}

/// An independent description of a condition.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Tree {
    Ver(usize),
    Badge(u8, u32, Box<Tree>),
    NofT(u32, Vec<Tree>),
    NotAvailable,
    Pass,
    Fail,
}
impl Tree {
    fn rnd(rng: &mut StdRng, depth: u32, n: usize, na: bool, badge: bool) -> Tree {
        let r = rng.gen_range(0..20);
        match r {
            0..=8 => Tree::Ver(rng.gen_range(0..n)),
            9..=14 if depth > 0 => {
                let many = rng.gen_range(0..12) == 0;
                let c = if many { rng.gen_range(5..40) } else { rng.gen_range(0..5) };
                let v: Vec<Tree> = (0..c).map(|_| Tree::rnd(rng, if many { 0 } else { depth - 1 }, n, na, badge)).collect();
                let thr = match rng.gen_range(0..25) {
                    0 => *pick(rng, &[255, 256, 257, 258, 65_536, 65_537, 1 << 24, u32::MAX]),
                    _ => rng.gen_range(0..=c + 1),
                };
                Tree::NofT(thr, v)
            }
            15..=16 if depth > 0 && badge => Tree::Badge(rng.gen_range(0..3), rng.gen_range(0..3), Box::new(Tree::rnd(rng, depth - 1, n, na, badge))),
            17 if na => Tree::NotAvailable,
            18 => Tree::Pass,
            19 => Tree::Fail,
            _ => Tree::Ver(rng.gen_range(0..n)),
        }
    }
    fn cond(&self, p: &Party) -> Condition {
        match self {
            Tree::Ver(i) => Condition::Verifier(p.signers[*i].verifier()),
            Tree::Badge(id, v, t) => Condition::Badge(
                VersionSpec::Minimal(badge_id(*id), *v),
                Badge {
                    id: badge_id(*id),
                    version: *v,
                    condition: Box::new(t.cond(p)),
                },
            ),
            Tree::NofT(n, v) => Condition::NofT(*n, v.iter().map(|t| t.cond(p)).collect()),
            Tree::NotAvailable => Condition::NotAvailable,
            Tree::Pass => Condition::Pass,
            Tree::Fail => Condition::Fail,
        }
    }
    fn link(&self, p: &Party) -> ConditionLink {
        match self {
            Tree::Ver(i) => ConditionLink::Verifier(p.ids[*i].clone()),
            Tree::Badge(id, v, _) => ConditionLink::Badge(VersionSpec::Minimal(badge_id(*id), *v)),
            Tree::NofT(n, v) => ConditionLink::NofT(*n, v.iter().map(|t| t.link(p)).collect()),
            Tree::NotAvailable | Tree::Fail => ConditionLink::Fail,
            Tree::Pass => ConditionLink::Pass,
        }
    }
    fn holds(&self, ok: &BTreeSet<usize>) -> bool {
        match self {
            Tree::Ver(i) => ok.contains(i),
            Tree::Badge(_, _, t) => t.holds(ok),
            Tree::NofT(n, v) => v.iter().filter(|t| t.holds(ok)).count() as u64 >= *n as u64,
            Tree::NotAvailable | Tree::Fail => false,
            Tree::Pass => true,
        }
    }
    fn has(&self, f: &dyn Fn(&Tree) -> bool) -> bool {
        f(self)
            || match self {
                Tree::Badge(_, _, t) => t.has(f),
                Tree::NofT(_, v) => v.iter().any(|t| t.has(f)),
                _ => false,
            }
    }
    fn verifiers(&self, out: &mut BTreeSet<usize>) {
        match self {
            Tree::Ver(i) => {
                out.insert(*i);
            }
            Tree::Badge(_, _, t) => t.verifiers(out),
            Tree::NofT(_, v) => v.iter().for_each(|t| t.verifiers(out)),
            _ => (),
        }
    }
    fn has_badge(&self) -> bool {
        self.has(&|t| matches!(t, Tree::Badge(..)))
    }
    fn has_na(&self) -> bool {
        self.has(&|t| matches!(t, Tree::NotAvailable))
    }
    /// What differs from self in one place.
    fn vary(&self, rng: &mut StdRng, n: usize) -> Tree {
        let mut t = self.clone();
        match &mut t {
            Tree::NofT(k, v) => match rng.gen_range(0..7) {
                0 => *k = if *k == 0 { 1 } else { *k - 1 },
                1 => *k = k.wrapping_add(1),
                6 => *k = k.wrapping_add(*pick(rng, &[256, 65_536, 1 << 24])),
                2 if !v.is_empty() => {
                    v.pop();
                }
                3 => v.push(Tree::Ver(rng.gen_range(0..n))),
                4 if v.len() > 1 => v.swap(0, 1),
                _ if !v.is_empty() => {
                    let i = rng.gen_range(0..v.len());
                    v[i] = v[i].vary(rng, n);
                }
                _ => return Tree::rnd(rng, 1, n, false, false),
            },
            Tree::Badge(id, v, inner) => match rng.gen_range(0..3) {
                0 => *id = (*id + 1) % 3,
                1 => *v += 1,
                _ => **inner = inner.vary(rng, n),
            },
            Tree::Ver(i) => match rng.gen_range(0..3) {
                0 => *i = (*i + 1) % n,
                1 => return Tree::NofT(1, vec![self.clone()]),
                _ => return Tree::Pass,
            },
            _ => return Tree::rnd(rng, 1, n, false, false),
        }
        t
    }
}
fn badge_id(i: u8) -> BadgeID {
    BadgeID::from([i; 32])
}

/// What is signed for a message under a condition. If this was wrong, the hostile signatures made
/// with it would only be less hostile.
fn oracle_digest(c: &Condition, msg: &Bytes) -> U256 {
    U256::hash_domain_parts("flcrypto::ConditionSignature::sign", &[c.hash().as_ref(), msg])
}

// ---------------------------------------------------------------- C01
fn c01(mon: &mut Mon) {
    mon.rule("random condition trees up to depth 3 over five keys, with every kind of node, and signature maps mixing valid signatures, missing ones, signatures over something else, by another key, truncated and random ones, and foreign signers; non-trivial when the tree has a verifier; distinct by tree and set of valid signers");
    mon.require("accepted", 200);
    mon.require("refused", 200);
    mon.require("invalid_sig_present", 200);
    mon.require("harder_condition", 100);
    let p = Party::new(7);
    for c in 0..mon.n(2500, 60_000) {
        let Some(mut rng) = mon.begin(format!("tree-{c}")) else { continue };
        let t = Tree::rnd(&mut rng, 3, 5, true, true);
        let cond = t.cond(&p);
        let len = rng.gen_range(0..200);
        let msg: Bytes = rnd_bytes(&mut rng, len).into();
        let by_msg = rng.gen();
        let digest = U256::from(<[u8; 32]>::try_from(rnd_bytes(&mut rng, 32)).unwrap());
        let mut cs = ConditionSignature::new(cond.clone());
        let mut used = BTreeSet::new();
        t.verifiers(&mut used);
        let mut valid = BTreeSet::new();
        let mut invalid = BTreeSet::new();
        // Valid ones first, through the API.
        for i in used.iter() {
            if rng.gen_range(0..3) > 0 {
                let r = if by_msg { cs.sign_msg(&p.signers[*i], &msg) } else { cs.sign_digest(&p.signers[*i], &digest) };
                mon.check(r.is_ok(), "member-cannot-sign", || json!({"tree": format!("{t:?}"), "signer": i}));
                valid.insert(*i);
            }
        }
        // A signer which is in no verifier is refused. A `Pass` anywhere accepts everybody.
        if !t.has(&|t| matches!(t, Tree::Pass)) {
            let r = cs.sign_digest(&p.signers[6], &digest);
            mon.check(r.is_err() && !cs.signatures.contains_key(&p.ids[6]), "stranger-signs", || json!(format!("{t:?}")));
        }
        if by_msg && rng.gen_range(0..10) == 0 {
            let r = cs.signers_msg(&used.iter().map(|i| &p.signers[*i]).collect::<Vec<_>>(), &msg);
            mon.check(r.is_ok(), "member-cannot-sign", || json!(format!("{t:?}")));
            valid = used.clone();
        }
        // A member who has signed before, something else or badly, signs again.
        if rng.gen_range(0..4) == 0 {
            let api = rng.gen_range(0..4);
            for i in used.iter() {
                let old: Signature = match rng.gen_range(0..3) {
                    0 => p.signers[*i].sign(&Bytes::from_static(b"other")).unwrap(),
                    1 => p.signers[(*i + 1) % 5].sign(&digest.bytes()).unwrap(),
                    _ => vec![1; 64].into(),
                };
                cs.signatures.insert(p.ids[*i].clone(), old);
            }
            let all: Vec<&Signer> = used.iter().map(|i| &p.signers[*i]).collect();
            let r = match (by_msg, api) {
                (true, 0..=1) => cs.signers_msg(&all, &msg),
                (true, _) => all.iter().try_for_each(|s| cs.sign_msg(s, &msg)),
                (false, 0..=1) => cs.signers_digest(&all, &digest),
                (false, _) => all.iter().try_for_each(|s| cs.sign_digest(s, &digest)),
            };
            mon.check(r.is_ok(), "member-cannot-sign", || json!(format!("{t:?}")));
            mon.count("signed_again", 1);
            valid = used.clone();
        }
        let hostile = rng.gen_range(0..3) > 0;
        if hostile {
            if rng.gen_range(0..6) == 0 {
                // A single signature, stored for somebody else.
                let (i, j) = (rng.gen_range(0..7), rng.gen_range(0..7));
                if i != j {
                    let d = if by_msg { oracle_digest(&cond, &msg) } else { digest };
                    cs.signatures.clear();
                    cs.signatures.insert(p.ids[i].clone(), p.signers[j].sign(&d.bytes()).unwrap());
                    valid.clear();
                    mon.count("single_misplaced", 1);
                }
            }
            for i in 0..7 {
                if rng.gen_range(0..4) > 0 {
                    continue;
                }
                let other = rng.gen_range(0..7);
                let od = U256::from(<[u8; 32]>::try_from(rnd_bytes(&mut rng, 32)).unwrap());
                let sig: Signature = match rng.gen_range(0..4) {
                    // Over something else
                    0 => p.signers[i].sign(&od.bytes()).unwrap(),
                    // Valid signature of somebody else
                    1 if other != i => p.signers[other].sign(&if by_msg { oracle_digest(&cond, &msg) } else { digest }.bytes()).unwrap(),
                    2 => {
                        let mut s = p.signers[i].sign(&if by_msg { oracle_digest(&cond, &msg) } else { digest }.bytes()).unwrap().bytes().to_vec();
                        let b = rng.gen_range(0..64);
                        s[b] ^= 1 << rng.gen_range(0..8);
                        s.into()
                    }
                    _ => {
                        let l = *pick(&mut rng, &[0, 1, 32, 63, 64, 65, 128]);
                        rnd_bytes(&mut rng, l).into()
                    }
                };
                cs.signatures.insert(p.ids[i].clone(), sig);
                valid.remove(&i);
                if used.contains(&i) {
                    invalid.insert(i);
                }
            }
        }
        let r = guarded(|| if by_msg { cs.verify_msg(&msg) } else { cs.verify_digest(&digest) });
        mon.check_panics("verify");
        let want = t.holds(&valid);
        if used.len() > 0 {
            mon.nontrivial((&t, &valid, &invalid));
        }
        if invalid.len() > 0 {
            mon.count("invalid_sig_present", 1);
        }
        mon.count(if want { "accepted" } else { "refused" }, 1);
        if let Some(r) = r {
            let det = || json!({"tree": format!("{t:?}"), "valid": valid, "invalid": invalid, "result": format!("{r:?}"), "expected": want});
            if want {
                mon.check(matches!(r, Ok(true)), "satisfied-condition-refused", det);
            } else {
                mon.check(!matches!(r, Ok(true)), "unsatisfied-condition-accepted", det);
            }
            if c < 3 {
                mon.sample(det());
            }
        }
        // Another message is never covered, whatever the condition needs.
        if !t.holds(&BTreeSet::new()) {
            let mut m2 = msg.to_vec();
            m2.push(1);
            let r = if by_msg { cs.verify_msg(&m2.into()) } else { cs.verify_digest(&U256::hash_data(&digest.to_bytes())) };
            mon.check(!matches!(r, Ok(true)), "signature-covers-other-message", || json!(format!("{t:?}")));
            if by_msg {
                // Nor is the same message under another condition.
                let t2 = t.vary(&mut rng, 5);
                if !t2.holds(&BTreeSet::new()) && t2 != t {
                    let cs2 = ConditionSignature { condition: t2.cond(&p), signatures: cs.signatures.clone() };
                    let r = cs2.verify_msg(&msg);
                    mon.check(!matches!(r, Ok(true)), "signature-covers-other-condition", || json!([format!("{t:?}"), format!("{t2:?}")]));
                }
            }
        }
        // What was signed under a condition nobody can fulfill doesn't count for an easier one.
        if let Tree::NofT(k, v) = &t {
            if t.holds(&used) && !t.holds(&BTreeSet::new()) {
                let add = *pick(&mut rng, &[1, 2, 3, 256, 512, 65_536, 1 << 24, 1 << 31]);
                if let Some(k2) = k.checked_add(add) {
                    mon.count("harder_condition", 1);
                    let mut cs2 = ConditionSignature::new(Tree::NofT(k2, v.clone()).cond(&p));
                    for i in used.iter() {
                        let _ = cs2.sign_msg(&p.signers[*i], &msg);
                    }
                    cs2.condition = cond.clone();
                    let r = cs2.verify_msg(&msg);
                    mon.check(!matches!(r, Ok(true)), "signature-covers-other-condition", || json!([k, k2]));
                }
            }
        }
        // Serialization keeps it all.
        if c % 20 == 0 {
            let y: Option<ConditionSignature> = serde_yaml::to_string(&cs).ok().and_then(|s| serde_yaml::from_str(&s).ok());
            let m: Option<ConditionSignature> = ConditionSignature::from_rmp_bytes("", &cs.to_rmp_bytes()).ok();
            mon.check(y.as_ref() == Some(&cs) && m.as_ref() == Some(&cs), "condition-signature-serde", || json!(format!("{t:?}")));
        }
    }
}

// ---------------------------------------------------------------- C02
/// The order of the base point, little endian.
const L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0x10,
];
fn add_l(s: &[u8]) -> Vec<u8> {
    let mut r = s.to_vec();
    let mut carry = 0u16;
    for i in 0..32 {
        let v = s[32 + i] as u16 + L[i] as u16 + carry;
        r[32 + i] = v as u8;
        carry = v >> 8;
    }
    r
}

/// The points of small order, in their canonical encodings.
const SMALL_ORDER: [&str; 8] = [
    "0100000000000000000000000000000000000000000000000000000000000000",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
];
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn b64(b: &[u8]) -> String {
    use base64::prelude::*;
    BASE64_STANDARD.encode(b)
}
fn key_bytes(v: &Verifier) -> Vec<u8> {
    use base64::prelude::*;
    let j = serde_json::to_value(v).unwrap();
    BASE64_STANDARD.decode(j["Ed25519"]["verifier"].as_str().unwrap()).unwrap()
}
fn verifier_from(v: &Verifier, key: &[u8]) -> Option<Verifier> {
    let mut j = serde_json::to_value(v).unwrap();
    j["Ed25519"]["verifier"] = json!(b64(key));
    serde_json::from_value(j).ok()
}

fn c02(mon: &mut Mon) {
    mon.rule("random keys and messages of all lengths, altered in single bits of message, signature and key, with signatures of all lengths, malleated scalars and malformed serializations; non-trivial when something was altered; distinct by alteration");
    mon.require("valid", 100);
    mon.require("altered", 2000);
    mon.require("malformed", 500);
    let mut ids = std::collections::HashSet::new();
    for c in 0..mon.n(200, 5000) {
        let Some(mut rng) = mon.begin(format!("key-{c}")) else { continue };
        let s = SignerEd25519::new();
        let v = s.verifier();
        let o = SignerEd25519::new();
        let len = *pick(&mut rng, &[0usize, 1, 31, 32, 33, 64, 100, 1000]);
        let msg: Bytes = rnd_bytes(&mut rng, len).into();
        let sig = s.sign(&msg).unwrap();
        mon.count("valid", 1);
        mon.check(v.verify(&msg, &sig).is_ok(), "own-signature", || json!(len));
        mon.check(s.sign(&msg).unwrap() == sig || v.verify(&msg, &s.sign(&msg).unwrap()).is_ok(), "own-signature", || json!(len));
        mon.check(s.get_id() == v.get_id() && ids.insert(v.get_id()), "key-id", || json!(format!("{}", v.get_id())));
        mon.check(o.verifier().verify(&msg, &sig).is_err(), "other-key-verifies", || json!(len));
        for _ in 0..20 {
            let mut b = sig.bytes().to_vec();
            let bit = rng.gen_range(0..512);
            b[bit / 8] ^= 1 << (bit % 8);
            mon.nontrivial(("sigbit", bit));
            mon.count("altered", 1);
            mon.check(v.verify(&msg, &b.into()).is_err(), "altered-signature-verifies", || json!({"bit": bit}));
            if len > 0 {
                let mut m = msg.to_vec();
                let bit = rng.gen_range(0..len * 8);
                m[bit / 8] ^= 1 << (bit % 8);
                mon.check(v.verify(&m.into(), &sig).is_err(), "altered-message-verifies", || json!({"len": len, "bit": bit}));
            }
            let cut = rng.gen_range(0..=len);
            let mut m = msg[..cut].to_vec();
            if cut == len {
                m.push(0)
            }
            mon.check(v.verify(&m.into(), &sig).is_err(), "other-length-verifies", || json!({"len": len, "cut": cut}));
        }
        mon.check(v.verify(&msg, &add_l(sig.bytes()).into()).is_err(), "malleable-signature", || json!(len));
        for _ in 0..6 {
            let l = *pick(&mut rng, &[0usize, 1, 32, 63, 64, 65, 96, 128, 1000]);
            let junk: Vec<u8> = match rng.gen_range(0..3) {
                0 => vec![0; l],
                1 => sig.bytes().iter().cloned().cycle().take(l).collect(),
                _ => rnd_bytes(&mut rng, l),
            };
            if junk == sig.bytes().to_vec() {
                continue;
            }
            mon.nontrivial(("len", l));
            mon.count("malformed", 1);
            let r = guarded(|| v.verify(&msg, &junk.clone().into()).is_ok());
            mon.check_panics("verify");
            mon.check(r != Some(true), "malformed-signature-verifies", || json!({"len": l, "sig": hex(&junk)}));
        }
        // Degenerate keys, for which the equation of the signature holds for any message.
        if c < 4 {
            for a in SMALL_ORDER {
                let Some(weak) = verifier_from(&v, &unhex(a)) else { continue };
                mon.count("weak_keys", 1);
                for r in SMALL_ORDER {
                    for m in [&msg[..], b"", b"other"] {
                        let sig = [unhex(r), vec![0; 32]].concat();
                        let r = guarded(|| weak.verify(&Bytes::copy_from_slice(m), &sig.clone().into()).is_ok());
                        mon.check_panics("verify");
                        mon.check(r != Some(true), "signature-without-key-verifies", || json!({"key": a, "sig": hex(&sig)}));
                    }
                }
            }
        }
        // Identifiers depend on every byte of the key.
        if c % 4 == 0 {
            let key = key_bytes(&v);
            if !mon.check(key.len() == 32, "verifier-serde", || json!(hex(&key))) {
                continue;
            }
            for i in 0..32 {
                for x in 1..=20u8 {
                    let mut k = key.clone();
                    k[i] ^= x << (c / 4 % 4);
                    let Some(o) = verifier_from(&v, &k) else { continue };
                    if o != v {
                        mon.count("neighbour_keys", 1);
                        mon.check(o.get_id() != v.get_id(), "key-id-collision", || json!({"byte": i, "key": hex(&key), "other": hex(&k)}));
                        mon.check(o.verify(&msg, &sig).is_err(), "other-key-verifies", || json!({"byte": i}));
                        break;
                    }
                }
            }
        }
        // Keys with a special first or last byte.
        let mut v = v;
        let mut s = s;
        let mut sig = sig;
        if c % 20 == 0 {
            for _ in 0..3000 {
                let s2 = SignerEd25519::new();
                let k = key_bytes(&s2.verifier());
                if !mon.check(k.len() == 32, "verifier-serde", || json!(hex(&k))) {
                    break;
                }
                let hit = match c / 20 % 4 {
                    0 => k[0] == 0,
                    1 => k[31] == 0,
                    2 => k[0] == 255,
                    _ => k[31] == 255,
                };
                if hit {
                    mon.count("special_keys", 1);
                    v = s2.verifier();
                    sig = s2.sign(&msg).unwrap();
                    s = s2;
                    break;
                }
            }
        }
        // Serialization.
        let s2: Option<Signer> = serde_yaml::to_string(&s).ok().and_then(|y| serde_yaml::from_str(&y).ok());
        let s3 = Signer::from_rmp_bytes("", &s.to_rmp_bytes()).ok();
        mon.check(s2.as_ref() == Some(&s) && s3.as_ref() == Some(&s), "signer-serde", || json!(c));
        if let Some(s2) = s2 {
            mon.check(s2.sign(&msg).ok().map(|g| v.verify(&msg, &g).is_ok()) == Some(true), "signer-serde", || json!(c));
        }
        let vy = serde_yaml::to_string(&v).unwrap();
        let v2: Option<Verifier> = serde_yaml::from_str(&vy).ok();
        let v3 = Verifier::from_rmp_bytes("", &v.to_rmp_bytes()).ok();
        mon.check(v2.as_ref() == Some(&v) && v3.as_ref() == Some(&v) && v2.map(|v| v.get_id()) == Some(v.get_id()), "verifier-serde", || json!(c));
        let gy = serde_yaml::to_string(&sig).unwrap();
        let g2: Option<Signature> = serde_yaml::from_str(&gy).ok();
        mon.check(g2.as_ref() == Some(&sig), "signature-serde", || json!(gy));
        for _ in 0..10 {
            let mut ch: Vec<char> = vy.chars().collect();
            for _ in 0..rng.gen_range(1..4) {
                if ch.is_empty() {
                    break;
                }
                let i = rng.gen_range(0..ch.len());
                match rng.gen_range(0..3) {
                    0 => ch[i] = rnd_string(&mut rng, 1).chars().next().unwrap(),
                    1 => {
                        ch.remove(i);
                    }
                    _ => ch.truncate(i + 1),
                }
            }
            let m: String = ch.into_iter().collect();
            mon.count("malformed", 1);
            let r = guarded(|| serde_yaml::from_str::<Verifier>(&m).ok().map(|x| (x.get_id() == v.get_id(), x.verify(&msg, &sig).is_ok())));
            mon.check_panics("decode-verifier");
            if let Some(Some((same_id, ok))) = r {
                mon.check(!ok || same_id, "altered-key-verifies", || json!(m));
            }
        }
    }
}

// ---------------------------------------------------------------- C03
fn c03(mon: &mut Mon) {
    mon.rule("pairs of random condition trees, equal or differing in one place, with badges of all versions, and sets of up to three signers; non-trivial when the trees have more than one node; distinct by pair");
    mon.require("pairs_equal", 200);
    mon.require("pairs_different", 200);
    mon.require("cansign_true", 100);
    mon.require("cansign_false", 100);
    let p = Party::new(5);
    let mut hashes: HashMap<U256, Tree> = HashMap::new();
    let rt = rt_current();
    for c in 0..mon.n(6000, 200_000) {
        let Some(mut rng) = mon.begin(format!("pair-{c}")) else { continue };
        let badges = rng.gen_range(0..3) == 0;
        let na = rng.gen_range(0..4) == 0;
        let a = Tree::rnd(&mut rng, 3, 5, na, badges);
        let b = match rng.gen_range(0..3) {
            0 => a.clone(),
            1 => a.vary(&mut rng, 5),
            _ => Tree::rnd(&mut rng, 2, 5, false, badges),
        };
        mon.nontrivial((&a, &b));
        let (ca, cb) = (a.cond(&p), b.cond(&p));
        let r = guarded(|| (ca.to_link(), cb.to_link(), format!("{ca}"), cb.hash(), ca.hash()));
        mon.check_panics("to_link");
        let Some((la, lb, _, hb, ha)) = r else { continue };
        let det = || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "a.to_link": format!("{la}")});
        // The link keeps the structure. An unavailable part can only fail.
        mon.check(la == a.link(&p) && lb == b.link(&p), "to_link-differs", det);
        mon.check((a == b) == (ha == hb), "condition-hash", det);
        if let Some(o) = hashes.insert(ha, a.clone()) {
            mon.check(o == a, "condition-hash-collision", || json!([format!("{o:?}"), format!("{a:?}")]));
        }
        // equal_link: the condition is the one described by the link. An unavailable part matches nothing.
        let eq = guarded(|| ca.equal_link(&lb));
        mon.check_panics("equal_link");
        let same = a.link(&p) == b.link(&p) && !a.has_na();
        mon.count(if same { "pairs_equal" } else { "pairs_different" }, 1);
        if let Some(eq) = eq {
            if !same {
                mon.check(!eq, "different-condition-matches-link", det);
            } else if a.has_badge() {
                // TODO in the code: a link to a badge says nothing about the badge's condition.
                mon.count("badge_links", 1);
            } else {
                mon.check(eq, "own-link-refused", det);
            }
        }
        // Who can sign alone or together.
        let n = rng.gen_range(0..4);
        let who: BTreeSet<usize> = (0..n).map(|_| rng.gen_range(0..5)).collect();
        let want = a.holds(&who);
        mon.count(if want { "cansign_true" } else { "cansign_false" }, 1);
        let ids: Vec<&KeyPairID> = who.iter().map(|i| &p.ids[*i]).collect();
        let sig: Vec<&Signer> = who.iter().map(|i| &p.signers[*i]).collect();
        let r = guarded(|| (ca.can_sign(&ids), ca.can_signers(&sig)));
        mon.check_panics("can_sign");
        if let Some((x, y)) = r {
            mon.check(x == want && y == want, "can_sign", || json!({"cond": format!("{a:?}"), "signers": who, "can_sign": x, "signatures_suffice": want}));
        }
        for i in 0..5 {
            let mut u = BTreeSet::new();
            a.verifiers(&mut u);
            let want = u.contains(&i) || a.has(&|t| matches!(t, Tree::Pass));
            mon.check(ca.has_verifier(&p.ids[i]) == want, "has_verifier", || json!([format!("{a:?}"), i.to_string()]));
        }
        // Resolving the link of an available condition gives it back.
        if c % 4 == 0 {
            let missing = rng.gen_range(0..8usize);
            let badge_tree = |id: &BadgeID| -> Option<(u32, Tree)> { find_badge(&a, id) };
            let calls = std::cell::Cell::new(0u64);
            let got = rt.block_on(la.to_condition(
                &async |vs: VersionSpec<BadgeID>| badge_tree(&vs.get_id()).filter(|_| {
                    calls.set(calls.get() + 1);
                    calls.get() < 500
                }).map(|(v, t)| BadgeLink { id: vs.get_id(), version: v, condition: t.link(&p) }),
                &async |k: KeyPairID| {
                    let w = p.who(&k);
                    (w != missing).then(|| p.signers[w].verifier())
                },
            ));
            mon.check(calls.get() < 500, "badge-cycle-endless", || json!(format!("{a:?}")));
            if !a.has_badge() {
                let want = resolved(&a, missing).cond(&p);
                mon.check(got == want, "to_condition", || json!({"cond": format!("{a:?}"), "missing": missing, "got": format!("{got:?}")}));
            }
        }
        if c < 3 {
            mon.sample(det());
        }
    }
    // Badges which refer to each other.
    for c in 0..mon.n(100, 2000) {
        let Some(mut rng) = mon.begin(format!("cycle-{c}")) else { continue };
        // Half of them are chains, where the last one has no other badges.
        let chain = c % 4 == 0;
        let n = if chain { rng.gen_range(2..16u8) } else { rng.gen_range(1..5u8) };
        // The condition of every badge is a link to the next ones, maybe behind a threshold.
        let next: Vec<Vec<u8>> = if chain { (0..n).map(|i| if i + 1 < n { vec![i + 1] } else { vec![] }).collect() } else { (0..n).map(|_| (0..rng.gen_range(0..3)).map(|_| rng.gen_range(0..n)).collect()).collect() };
        mon.nontrivial(("cycle", &next));
        mon.count("badge_graphs", 1);
        let (n2, ids) = (next.clone(), p.ids.clone());
        let ver = p.signers[0].verifier();
        let r = mon::bounded(20., move || {
            let link = |i: u8| ConditionLink::Badge(VersionSpec::Minimal(badge_id(i), 0));
            let cond = |i: u8| match chain && i + 1 < n {
                true => link(i + 1),
                false => ConditionLink::NofT(1, n2[i as usize].iter().map(|j| link(*j)).chain([ConditionLink::Verifier(ids[0].clone())]).collect()),
            };
            rt_current().block_on(async {
                let calls = std::cell::Cell::new(0u64);
                let got = link(0)
                    .to_condition(
                        &async |vs: VersionSpec<BadgeID>| {
                            calls.set(calls.get() + 1);
                            assert!(calls.get() < 2000, "endless resolution");
                            let id = vs.get_id();
                            Some(BadgeLink { condition: cond(id.to_bytes()[0]), id, version: 0 })
                        },
                        &async |_: KeyPairID| Some(ver.clone()),
                    )
                    .await;
                (got.has_verifier(&ids[0]), calls.get())
            })
        });
        let _ = mon::take_panics();
        match r {
            mon::Bounded::Done((has, calls)) => {
                mon.check(has, "badge-cycle-lost", || json!(next));
                mon.count("badges_resolved", calls);
            }
            mon::Bounded::Panicked => mon.violation("badge-cycle-endless", json!(next)),
            mon::Bounded::Stuck(w) => mon.violation("badge-cycle-stuck", json!([next, w])),
        }
    }
    // Versions.
    for c in 0..mon.n(200, 2000) {
        let Some(mut rng) = mon.begin(format!("version-{c}")) else { continue };
        let vs: [u32; 6] = [0, 1, 2, 5, u32::MAX - 1, u32::MAX];
        let (a, b) = (*pick(&mut rng, &vs), *pick(&mut rng, &vs));
        let (i, j) = (rng.gen_range(0..3u8), rng.gen_range(0..3u8));
        mon.nontrivial(("v", a, b, i, j));
        for (spec, want) in [
            (VersionSpec::Minimal(badge_id(i), a), b >= a),
            (VersionSpec::Exact(badge_id(i), a), b == a),
            (VersionSpec::Maximal(badge_id(i), a), b <= a),
        ] {
            let bl = BadgeLink { id: badge_id(j), version: b, condition: ConditionLink::Pass };
            mon.check(spec.accepts(b) == want && spec.get_id() == badge_id(i) && spec.id() == badge_id(i), "version-accepts", || json!([format!("{spec:?}"), b.to_string()]));
            mon.check(bl.fits_version(spec.clone()) == (want && i == j), "badge-fits", || json!([format!("{spec:?}"), b.to_string(), j.to_string()]));
        }
    }
}
fn find_badge(t: &Tree, id: &BadgeID) -> Option<(u32, Tree)> {
    match t {
        Tree::Badge(i, v, inner) if badge_id(*i) == *id => Some((*v, (**inner).clone())),
        Tree::Badge(_, _, inner) => find_badge(inner, id),
        Tree::NofT(_, v) => v.iter().find_map(|t| find_badge(t, id)),
        _ => None,
    }
}
fn resolved(t: &Tree, missing: usize) -> Tree {
    match t {
        Tree::Ver(i) if *i == missing => Tree::NotAvailable,
        Tree::NofT(n, v) => Tree::NofT(*n, v.iter().map(|t| resolved(t, missing)).collect()),
        Tree::NotAvailable => Tree::Fail,
        t => t.clone(),
    }
}

// ---------------------------------------------------------------- C04, C05
/// A condition which some of the keys can satisfy.
fn owner_cond(rng: &mut StdRng, n: usize) -> Tree {
    let mut all: Vec<usize> = (0..n).collect();
    all.shuffle(rng);
    match rng.gen_range(0..6) {
        0..=2 => Tree::Ver(all[0]),
        3 => Tree::NofT(1, all[..2].iter().map(|i| Tree::Ver(*i)).collect()),
        4 => Tree::NofT(2, all[..3].iter().map(|i| Tree::Ver(*i)).collect()),
        _ => Tree::NofT(2, vec![Tree::Ver(all[0]), Tree::NofT(1, vec![Tree::Ver(all[1]), Tree::Ver(all[2])])]),
    }
}
fn signers_for<'a>(t: &Tree, p: &'a Party, rng: &mut StdRng) -> Vec<&'a Signer> {
    let mut v = BTreeSet::new();
    t.verifiers(&mut v);
    let mut v: Vec<usize> = v.into_iter().collect();
    v.shuffle(rng);
    // A minimal set, or all.
    if rng.gen() {
        let mut ok = BTreeSet::new();
        for i in &v {
            ok.insert(*i);
            if t.holds(&ok) {
                break;
            }
        }
        return ok.into_iter().map(|i| &p.signers[i]).collect();
    }
    v.into_iter().map(|i| &p.signers[i]).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Content {
    id: String,
    flo_type: String,
    data: Vec<u8>,
    version: u32,
    conds: Vec<String>,
    config: String,
}
fn flo_json(f: &Flo) -> Value {
    serde_json::to_value(f).unwrap()
}
fn body(v: &Value) -> &Value {
    v.as_object().unwrap().values().next().unwrap()
}
fn content(f: &Flo) -> Content {
    let j = flo_json(f);
    let b = body(&j);
    let mut conds = vec![b["cond_genesis"]["cond"].to_string()];
    conds.extend(b["cond_update"].as_array().unwrap().iter().map(|c| c["cond"].to_string()));
    Content {
        id: format!("{:x}", *f.flo_id()),
        flo_type: f.flo_type(),
        data: f.data().to_vec(),
        version: f.version(),
        conds,
        config: b["flo_config"].to_string(),
    }
}
/// Whether these keys are enough for the condition, if all their signatures are valid.
fn enough(c: &Condition, ids: &[String]) -> bool {
    match c {
        Condition::Verifier(v) => ids.contains(&format!("{:x}", *v.get_id())),
        Condition::Badge(_, b) => enough(&b.condition, ids),
        Condition::NofT(n, v) => v.iter().filter(|c| enough(c, ids)).count() as u64 >= *n as u64,
        Condition::Pass => true,
        Condition::Fail | Condition::NotAvailable => false,
    }
}
/// If path points to a signature: is it needed to fulfil its condition?
fn needed(j: &Value, path: &[String]) -> bool {
    let n = path.len();
    if n < 3 || path[n - 2] != "signatures" {
        return false;
    }
    let mut v = j.clone();
    let cs = at(&mut v, &path[..n - 2]).clone();
    let Ok(cond) = serde_json::from_value::<Condition>(cs["condition"].clone()) else { return false };
    let Some(map) = cs["signatures"].as_object() else { return false };
    let rest: Vec<String> = map.keys().filter(|k| **k != path[n - 1]).cloned().collect();
    !enough(&cond, &rest)
}
fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(o) => {
            for (k, v) in o {
                path.push(k.clone());
                leaves(v, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            out.push(path.clone());
            for (i, v) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(v, path, out);
                path.pop();
            }
        }
        _ => out.push(path.clone()),
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Object(o) => o.get_mut(p).unwrap(),
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    v
}
fn change(rng: &mut StdRng, v: &mut Value) {
    match v {
        Value::Number(n) => {
            let x = n.as_i64().unwrap_or(0);
            *v = json!(*pick(rng, &[x + 1, (x - 1).max(0), 0, x + 2]))
        }
        Value::String(s) if s.is_empty() => *s = "00".into(),
        Value::String(s) => {
            let mut c: Vec<char> = s.chars().collect();
            let i = rng.gen_range(0..c.len());
            match rng.gen_range(0..4) {
                0 if c.len() > 1 => {
                    c.truncate(c.len() - 2.min(c.len()));
                }
                1 => c.extend("00".chars()),
                _ => {
                    c[i] = match c[i] {
                        '0'..='8' | 'a'..='e' | 'A'..='Y' => (c[i] as u8 + 1) as char,
                        'f' => '0',
                        _ => 'b',
                    }
                }
            }
            *s = c.into_iter().collect();
        }
        Value::Array(a) => match rng.gen_range(0..3) {
            0 if !a.is_empty() => {
                a.pop();
            }
            1 if a.len() > 1 => a.swap(0, 1),
            _ if !a.is_empty() => {
                let l = a[a.len() - 1].clone();
                a.push(l);
            }
            _ => (),
        },
        Value::Null => *v = json!("1234567812345678123456781234567812345678123456781234567812345678"),
        Value::Bool(b) => *b = !*b,
        _ => (),
    }
}

struct History {
    flos: Vec<(Flo, Tree)>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Obj {
    txt: String,
    nbr: u32,
}
/// A type of the same name and structure in another module.
mod twin {
    #[derive(Debug, Clone, serde::Serialize, serde::Deserialize, PartialEq)]
    pub struct Obj {
        txt: String,
        nbr: u32,
    }
}
fn obj(rng: &mut StdRng) -> Obj {
    let n = rng.gen_range(0..30);
    Obj { txt: rnd_string(rng, n), nbr: rng.gen() }
}
fn history(mon: &mut Mon, rng: &mut StdRng, p: &Party, steps: usize) -> Option<History> {
    let rid = RealmID::from(<[u8; 32]>::try_from(rnd_bytes(rng, 32)).unwrap());
    let mut t = owner_cond(rng, 4);
    let cfg = FloConfig {
        cuckoo: match rng.gen_range(0..3) {
            0 => Cuckoo::None,
            1 => Cuckoo::Duration(rng.gen_range(0..100)),
            _ => Cuckoo::Parent(U256::rnd().into()),
        },
        force_id: None,
    };
    let mut flo = Flo::new_signer(rid, t.cond(p), &obj(rng), cfg, &signers_for(&t, p, rng)).ok()?;
    let mut h = History { flos: vec![(flo.clone(), t.clone())] };
    let mut log = vec![format!("new {t:?}")];
    for _ in 0..steps {
        let (v0, id0) = (flo.version(), flo.flo_id());
        if rng.gen_range(0..3) > 0 {
            let new = obj(rng);
            log.push("update_data".into());
            let s = signers_for(&t, p, rng);
            let r = if rng.gen() {
                flo.update_data_signers(t.cond(p), new.clone(), &s)
            } else {
                // A data update can only be built from what was started.
                flo.start_sign_data(t.cond(p), new.clone()).and_then(|u| {
                    let _ = u;
                    flo.update_data_signers(t.cond(p), new.clone(), &s)
                })
            };
            match r {
                Ok(f) => flo = f,
                Err(e) => {
                    mon.violation("honest-update-refused", json!({"log": log, "err": e.to_string()}));
                    return None;
                }
            }
            mon.check(flo.version() == v0 + 1 && *flo.data() == new.to_rmp_bytes(), "data-update-version", || json!({"log": log, "version": flo.version()}));
        } else {
            let t2 = owner_cond(rng, 4);
            log.push(format!("update_cond {t2:?}"));
            match flo.update_cond_signers(t.cond(p), t2.cond(p), &signers_for(&t, p, rng), &signers_for(&t2, p, rng)) {
                Ok(f) => flo = f,
                Err(e) => {
                    mon.violation("honest-cond-update-refused", json!({"log": log, "err": e.to_string()}));
                    return None;
                }
            }
            t = t2;
            mon.check(flo.version() == v0 && *flo.cond() == t.link(p), "cond-update", || json!({"log": log}));
        }
        mon.check(flo.flo_id() == id0, "id-changes", || json!({"log": log}));
        h.flos.push((flo.clone(), t.clone()));
    }
    for (i, (f, t)) in h.flos.iter().enumerate() {
        let r = guarded(|| f.verify());
        mon.check_panics("flo-verify");
        mon.count("honest_verified", 1);
        mon.check(matches!(r, Some(Ok(true))), "honest-flo-refused", || json!({"log": log, "step": i, "cond": format!("{t:?}"), "result": format!("{r:?}")}));
    }
    Some(h)
}

/// The digests which are signed. They're only used for attacks: if they were wrong, the attacks
/// would only be weaker.
fn genesis_digest(f: &Flo) -> U256 {
    let j = flo_json(f);
    let b = body(&j);
    let cond: ConditionLink = serde_json::from_value(b["cond_genesis"]["cond"].clone()).unwrap();
    let nonce: U256 = serde_json::from_value(b["nonce"].clone()).unwrap();
    U256::hash_domain_parts("flmodules::flo::cond_genesis", &[f.flo_type().as_ref(), &f.flo_config().to_rmp_bytes(), &cond.to_rmp_bytes(), &nonce.bytes()])
}
fn update_digest(f: &Flo, k: usize) -> U256 {
    let j = flo_json(f);
    let cond: ConditionLink = serde_json::from_value(body(&j)["cond_update"][k - 1]["cond"].clone()).unwrap();
    U256::hash_domain_parts("flmodules::flo::cond_update", &[&f.flo_id().bytes(), &(k as u32).to_le_bytes(), &cond.to_rmp_bytes()])
}
fn data_digest(f: &Flo) -> U256 {
    let n = body(&flo_json(f))["cond_update"].as_array().unwrap().len();
    U256::hash_domain_parts("flmodules::flo::data", &[&f.flo_id().bytes(), f.data(), &f.version().to_le_bytes(), &n.to_le_bytes()])
}

fn c04(mon: &mut Mon) {
    mon.rule("histories of up to six data and condition updates by owners with single, 1-of-2, 2-of-3 and nested conditions; then every leaf of the serialized Flo altered, lists shortened, swapped and extended, parts spliced between versions and Flos, and updates signed by strangers or too few owners; non-trivial when the altered Flo decodes and differs; distinct by altered path and history shape");
    mon.assume("The realm of a Flo isn't covered by its signatures in this design, and isn't part of what is checked.");
    mon.require("honest_verified", 100);
    mon.require("altered_decoded", 1000);
    mon.require("spliced", 200);
    mon.require("stranger_updates", 100);
    mon.require("needed_signature_altered", 100);
    mon.require("stolen", 100);
    let p = Party::new(6);
    for c in 0..mon.n(80, 1500) {
        let Some(mut rng) = mon.begin(format!("history-{c}")) else { continue };
        let steps = rng.gen_range(0..6);
        let Some(h) = history(mon, &mut rng, &p, steps) else { continue };
        let Some(h2) = history(mon, &mut rng, &p, 2) else { continue };
        let authorised: BTreeSet<String> = h.flos.iter().chain(h2.flos.iter()).map(|(f, _)| format!("{:?}", content(f))).collect();
        let judge = |mon: &mut Mon, f: &Flo, what: &str, det: Value| {
            let r = guarded(|| f.verify());
            mon.check_panics("flo-verify");
            let accepted = matches!(r, Some(Ok(true)));
            mon.check(!accepted || authorised.contains(&format!("{:?}", content(f))), what, || det);
            accepted
        };
        for (i, (f, t)) in h.flos.iter().enumerate() {
            let j = flo_json(f);
            let mut paths = vec![];
            leaves(&j, &mut vec![], &mut paths);
            for path in paths {
                for _ in 0..2 {
                    let mut m = j.clone();
                    change(&mut rng, at(&mut m, &path));
                    if m == j {
                        continue;
                    }
                    let Ok(g) = serde_json::from_value::<Flo>(m.clone()) else {
                        mon.count("altered_undecodable", 1);
                        continue;
                    };
                    if g == *f {
                        continue;
                    }
                    mon.count("altered_decoded", 1);
                    mon.nontrivial((path.iter().map(|p| if p.len() > 30 { "key" } else { p }).collect::<Vec<_>>(), i));
                    if needed(&j, &path) {
                        mon.count("needed_signature_altered", 1);
                        let r = guarded(|| g.verify());
                        mon.check_panics("flo-verify");
                        mon.check(!matches!(r, Some(Ok(true))), "step-without-signature-verifies", || json!({"step": i, "path": path.join("/")}));
                    }
                    let det = json!({"step": i, "cond": format!("{t:?}"), "path": path.join("/"), "value": at(&mut m.clone(), &path).to_string().chars().take(100).collect::<String>()});
                    judge(mon, &g, "altered-flo-verifies", det);
                }
            }
            // Another configuration.
            let top = j.as_object().unwrap().keys().next().unwrap().clone();
            for cuckoo in [Cuckoo::None, Cuckoo::Duration(0), Cuckoo::Duration(u32::MAX), Cuckoo::Parent(f.flo_id()), Cuckoo::Parent(U256::rnd().into())] {
                for force in [None, Some(genesis_digest(f)), Some(U256::rnd()), Some(*f.flo_id())] {
                    let mut m = j.clone();
                    m[&top]["flo_config"] = serde_json::to_value(FloConfig { cuckoo: cuckoo.clone(), force_id: force }).unwrap();
                    let Ok(g) = serde_json::from_value::<Flo>(m) else { continue };
                    mon.count("other_config", 1);
                    judge(mon, &g, "altered-config-verifies", json!({"step": i, "config": format!("{:?}", g.flo_config())}));
                }
            }
            // Signatures of a stranger in place of those of the owners of one step.
            let stranger = |d: &U256| {
                let mut cs = ConditionSignature::new(Condition::Verifier(p.signers[5].verifier()));
                cs.sign_digest(&p.signers[5], d).unwrap();
                serde_json::to_value(&cs).unwrap()
            };
            let steps = body(&j)["cond_update"].as_array().unwrap().len();
            for k in 0..steps + 2 {
                let mut m = j.clone();
                if k == 0 {
                    m[&top]["cond_genesis"]["signatures"] = stranger(&genesis_digest(f));
                } else if k <= steps {
                    m[&top]["cond_update"][k - 1]["signatures"] = stranger(&update_digest(f, k));
                } else {
                    m[&top]["data_signature"] = stranger(&data_digest(f));
                }
                let Ok(g) = serde_json::from_value::<Flo>(m) else { continue };
                mon.count("foreign_signature_steps", 1);
                let r = guarded(|| g.verify());
                mon.check_panics("flo-verify");
                mon.check(!matches!(r, Some(Ok(true))), "step-signed-by-stranger-verifies", || json!({"step": i, "part": k, "of": steps + 2}));
            }
            // Splices of parts from other versions and other Flos.
            for (k, (o, _)) in h.flos.iter().chain(h2.flos.iter()).enumerate() {
                let jo = flo_json(o);
                let keys: Vec<String> = body(&j).as_object().unwrap().keys().cloned().collect();
                for _ in 0..3 {
                    let mut m = j.clone();
                    let n = rng.gen_range(1..4);
                    let chosen: Vec<&String> = keys.choose_multiple(&mut rng, n).collect();
                    let top = m.as_object().unwrap().keys().next().unwrap().clone();
                    for key in &chosen {
                        m[&top][key.as_str()] = body(&jo)[key.as_str()].clone();
                    }
                    let Ok(g) = serde_json::from_value::<Flo>(m) else { continue };
                    mon.count("spliced", 1);
                    judge(mon, &g, "spliced-flo-verifies", json!({"step": i, "with": k, "keys": chosen}));
                }
            }
            // Strangers, and owners which are too few.
            let strangers = Tree::Ver(5);
            let evil = Obj { txt: "evil".into(), nbr: 1 };
            mon.count("stranger_updates", 1);
            // The stranger with its own condition, and with the owners' condition
            for cond in [strangers.cond(&p), t.cond(&p), Condition::Pass, Condition::NofT(0, vec![]), Condition::NotAvailable] {
                let r = guarded(|| f.update_data_signers(cond.clone(), evil.clone(), &[&p.signers[5]]).or_else(|_| f.update_data_signers(cond.clone(), evil.clone(), &[])));
                mon.check_panics("update");
                if let Some(Ok(g)) = r {
                    judge(mon, &g, "stranger-update-verifies", json!({"step": i, "owner": format!("{t:?}"), "cond": format!("{cond:?}")}));
                }
                for signers_new in [vec![&p.signers[5]], vec![]] {
                    let r = guarded(|| f.update_cond_signers(cond.clone(), strangers.cond(&p), &signers_new, &[&p.signers[5]]));
                    mon.check_panics("update");
                    if let Some(Ok(g)) = r {
                        judge(mon, &g, "stranger-cond-update-verifies", json!({"step": i, "owner": format!("{t:?}"), "cond": format!("{cond:?}")}));
                        if let Ok(g) = g.update_data_signers(strangers.cond(&p), evil.clone(), &[&p.signers[5]]) {
                            judge(mon, &g, "stranger-cond-update-verifies", json!({"step": i, "owner": format!("{t:?}"), "cond": format!("{cond:?}")}));
                        }
                    }
                }
            }
            if let Tree::NofT(2, _) = t {
                let mut v = BTreeSet::new();
                t.verifiers(&mut v);
                for i in v {
                    let s = [&p.signers[i]];
                    let r = f.update_data_signers(t.cond(&p), evil.clone(), &s);
                    mon.check(r.is_err(), "too-few-owners-update", || json!(format!("{t:?}")));
                    let weak = Condition::NofT(1, match t.cond(&p) { Condition::NofT(_, v) => v, _ => unreachable!() });
                    mon.count("weakened_threshold", 1);
                    if let Ok(g) = f.update_data_signers(weak, evil.clone(), &s) {
                        judge(mon, &g, "weakened-threshold-verifies", json!(format!("{t:?}")));
                    }
                    if let Ok(g) = f.update_cond_signers(t.cond(&p), strangers.cond(&p), &s, &[&p.signers[5]]) {
                        judge(mon, &g, "too-few-owners-cond-update", json!(format!("{t:?}")));
                    }
                }
            }
        }
        if c < 2 {
            mon.sample(json!(h.flos.iter().map(|(f, t)| json!({"version": f.version(), "cond": format!("{t:?}")})).collect::<Vec<_>>()));
        }
    }
    // The digests used above are those of the code: a Flo put together with them verifies.
    if mon.begin("digests".into()).is_some() {
        let f = Flo::new_signer(RealmID::zero(), Tree::Ver(0).cond(&p), &1u32, FloConfig::default(), &[&p.signers[0]]).unwrap();
        let f = f.update_cond_signers(Tree::Ver(0).cond(&p), Tree::Ver(1).cond(&p), &[&p.signers[0]], &[&p.signers[1]]).unwrap();
        let mut j = flo_json(&f);
        let top = j.as_object().unwrap().keys().next().unwrap().clone();
        let cs = |i: usize, d: &U256| {
            let mut cs = ConditionSignature::new(Tree::Ver(i).cond(&p));
            cs.sign_digest(&p.signers[i], d).unwrap();
            serde_json::to_value(&cs).unwrap()
        };
        j[&top]["cond_genesis"]["signatures"] = cs(0, &genesis_digest(&f));
        j[&top]["cond_update"][0]["signatures"] = cs(0, &update_digest(&f, 1));
        j[&top]["data_signature"] = cs(1, &data_digest(&f));
        let ok = serde_json::from_value::<Flo>(j).ok().map(|g| matches!(g.verify(), Ok(true)));
        mon.count("digests_match", (ok == Some(true)) as u64);
    }
    // Steps signed for another Flo, or for another place in the history.
    for c in 0..mon.n(60, 1000) {
        let Some(mut rng) = mon.begin(format!("transfer-{c}")) else { continue };
        let mk = || Flo::new_signer(RealmID::zero(), Tree::Ver(0).cond(&p), &Obj { txt: "a".into(), nbr: 0 }, FloConfig::default(), &[&p.signers[0]]).unwrap();
        let to = |f: &Flo, a: usize, b: usize| f.update_cond_signers(Tree::Ver(a).cond(&p), Tree::Ver(b).cond(&p), &[&p.signers[a]], &[&p.signers[b]]).unwrap();
        let evil = Obj { txt: "evil".into(), nbr: 9 };
        // The owner gives a first Flo to 1, but keeps a second one.
        let (a, b) = (mk(), mk());
        let mut given = to(&a, 0, 1);
        let mut kept = b.clone();
        for k in 0..rng.gen_range(0..7) {
            let o = Obj { txt: "x".into(), nbr: k };
            kept = kept.update_data_signers(Tree::Ver(0).cond(&p), o.clone(), &[&p.signers[0]]).unwrap();
            if rng.gen() {
                given = given.update_data_signers(Tree::Ver(1).cond(&p), o, &[&p.signers[1]]).unwrap();
            }
        }
        mon.nontrivial(("transfer", c));
        let (jg, mut jk) = (flo_json(&given), flo_json(&kept));
        let top = jk.as_object().unwrap().keys().next().unwrap().clone();
        jk[&top]["cond_update"] = body(&jg)["cond_update"].clone();
        let stolen = |mon: &mut Mon, j: Value, who: usize, what: &str| {
            let Ok(g) = serde_json::from_value::<Flo>(j) else { return };
            mon.count("stolen", 1);
            let det = || json!({"versions": [given.version(), kept.version()]});
            mon.check(!matches!(g.verify(), Ok(true)), what, det);
            // The new owner signs the data himself, with both possible interfaces.
            if let Ok(g) = g.update_data_signers(Tree::Ver(who).cond(&p), evil.clone(), &[&p.signers[who]]) {
                mon.check(!matches!(g.verify(), Ok(true)), what, det);
            }
            let g2 = serde_json::from_value::<Flo>({
                let mut j = flo_json(&g);
                let mut cs = ConditionSignature::new(Tree::Ver(who).cond(&p));
                cs.sign_digest(&p.signers[who], &data_digest(&g)).unwrap();
                j[&top]["data_signature"] = serde_json::to_value(&cs).unwrap();
                j
            });
            if let Ok(g) = g2 {
                mon.check(!matches!(g.verify(), Ok(true)), what, det);
            }
        };
        stolen(mon, jk, 1, "step-of-other-flo-verifies");
        // 0 gives it to 1, who gives it back: 1 plays the first step again.
        let mut f = to(&mk(), 0, 1);
        let first = body(&flo_json(&f))["cond_update"][0].clone();
        for _ in 0..rng.gen_range(0..3) {
            f = f.update_data_signers(Tree::Ver(1).cond(&p), obj(&mut rng), &[&p.signers[1]]).unwrap();
        }
        f = to(&f, 1, 0);
        for _ in 0..rng.gen_range(0..5) {
            f = f.update_data_signers(Tree::Ver(0).cond(&p), obj(&mut rng), &[&p.signers[0]]).unwrap();
        }
        mon.check(matches!(f.verify(), Ok(true)), "honest-flo-refused", || json!("given and returned"));
        let mut j = flo_json(&f);
        j[&top]["cond_update"].as_array_mut().unwrap().push(first);
        stolen(mon, j, 1, "repeated-step-verifies");
        // A stranger puts steps nobody signed in the middle of a long history.
        let mut f = mk();
        for _ in 0..rng.gen_range(0..8) {
            f = f.update_data_signers(Tree::Ver(0).cond(&p), obj(&mut rng), &[&p.signers[0]]).unwrap();
        }
        let mut j = flo_json(&f);
        let n = rng.gen_range(1..5usize);
        for k in 1..=n {
            // The first ones without any signature, the later ones signed by the stranger.
            let by = if k == 1 { 0 } else { 5 };
            let mut cs = ConditionSignature::new(Tree::Ver(by).cond(&p));
            let d = U256::hash_domain_parts("flmodules::flo::cond_update", &[&f.flo_id().bytes(), &(k as u32).to_le_bytes(), &Tree::Ver(5).link(&p).to_rmp_bytes()]);
            if by == 5 {
                cs.sign_digest(&p.signers[5], &d).unwrap();
            } else if rng.gen() {
                cs.signatures.insert(p.ids[0].clone(), p.signers[5].sign(&d.bytes()).unwrap());
            }
            let step = json!({"cond": serde_json::to_value(Tree::Ver(5).link(&p)).unwrap(), "signatures": serde_json::to_value(&cs).unwrap()});
            j[&top]["cond_update"].as_array_mut().unwrap().push(step);
        }
        stolen(mon, j, 5, "unsigned-step-verifies");
    }
    // Replaying an old owner after the condition changed.
    for c in 0..mon.n(100, 2000) {
        let Some(mut rng) = mon.begin(format!("old-owner-{c}")) else { continue };
        let rid = RealmID::rnd();
        let n = rng.gen_range(1..4);
        let mut flo = Flo::new_signer(rid, Tree::Ver(0).cond(&p), &obj(&mut rng), FloConfig::default(), &[&p.signers[0]]).unwrap();
        for i in 0..n {
            flo = flo.update_cond_signers(Tree::Ver(i).cond(&p), Tree::Ver(i + 1).cond(&p), &[&p.signers[i]], &[&p.signers[i + 1]]).unwrap();
        }
        mon.nontrivial(("old", n, c));
        mon.check(flo.verify().ok() == Some(true), "honest-flo-refused", || json!(n));
        let old = rng.gen_range(0..n);
        if let Ok(g) = flo.update_data_signers(Tree::Ver(old).cond(&p), obj(&mut rng), &[&p.signers[old]]) {
            mon.check(!matches!(g.verify(), Ok(true)), "old-owner-updates", || json!({"owners": n + 1, "old": old}));
        }
        if let Ok(g) = flo.update_cond_signers(Tree::Ver(old).cond(&p), Tree::Ver(5).cond(&p), &[&p.signers[old]], &[&p.signers[5]]) {
            mon.check(!matches!(g.verify(), Ok(true)), "old-owner-updates", || json!({"owners": n + 1, "old": old}));
        }
        // The genesis owner dropping the later conditions, and updating from there.
        let mut j = flo_json(&flo);
        let top = j.as_object().unwrap().keys().next().unwrap().clone();
        let keep = rng.gen_range(0..n);
        j[&top]["cond_update"].as_array_mut().unwrap().truncate(keep);
        if let Ok(g) = serde_json::from_value::<Flo>(j) {
            mon.check(!matches!(g.verify(), Ok(true)), "truncated-history-verifies", || json!({"owners": n + 1, "keep": keep}));
        }
    }
    // A Flo with a badge as condition.
    if mon.begin("badge".into()).is_some() {
        mon.nontrivial("badge");
        let t = Tree::Badge(1, 0, Box::new(Tree::Ver(0)));
        let r = Flo::new_signer(RealmID::rnd(), t.cond(&p), &"x".to_string(), FloConfig::default(), &[&p.signers[0]]).and_then(|f| f.verify());
        mon.check(matches!(r, Ok(true)), "honest-badge-flo-refused", || json!(format!("{r:?}")));
    }
}

fn c05(mon: &mut Mon) {
    mon.rule("histories as in C04, serialized in three formats after each step, wrapped as their own and other types, with multi-step signing where an update is overtaken by another; non-trivial when an update was applied; distinct by history");
    mon.require("serialized", 300);
    mon.require("stale_updates", 50);
    mon.require("stale_open", 100);
    mon.require("cond_updates", 100);
    let p = Party::new(5);
    for c in 0..mon.n(120, 3000) {
        let Some(mut rng) = mon.begin(format!("history-{c}")) else { continue };
        let steps = if c % 10 == 0 { rng.gen_range(20..50) } else { rng.gen_range(1..7) };
        let Some(h) = history(mon, &mut rng, &p, steps) else { continue };
        mon.nontrivial(h.flos.iter().map(|(_, t)| t.clone()).collect::<Vec<_>>());
        for (f, _) in &h.flos {
            mon.count("serialized", 3);
            let y: Option<Flo> = serde_yaml::to_string(f).ok().and_then(|s| serde_yaml::from_str(&s).ok());
            let j: Option<Flo> = serde_json::to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok());
            let r = Flo::from_rmp_bytes("", &f.to_rmp_bytes()).ok();
            for (n, g) in [("yaml", y), ("json", j), ("rmp", r)] {
                let ok = g.as_ref().map(|g| g == f && g.flo_id() == f.flo_id() && g.realm_id() == f.realm_id() && g.version() == f.version() && matches!(g.verify(), Ok(true)) && content(g) == content(f));
                mon.check(ok == Some(true), "flo-serde", || json!({"format": n}));
            }
            mon.check(f.global_id().realm_id() == &f.realm_id() && f.global_id().flo_id() == &f.flo_id(), "global-id", || json!(""));
            // As its own type, and never as another one.
            let w = FloWrapper::<Obj>::try_from(f.clone());
            mon.check(w.as_ref().map(|w| w.cache().to_rmp_bytes() == *f.data() && w.flo() == f).unwrap_or(false), "wrapper-cache", || json!(""));
            let x = FloWrapper::<twin::Obj>::try_from(f.clone());
            mon.check(x.is_err(), "wrapper-wrong-type", || json!(format!("{} taken for {}", f.flo_type(), std::any::type_name::<twin::Obj>())));
            mon.check(FloBlob::try_from(f.clone()).is_err() && FloRealm::try_from(f.clone()).is_err() && FloWrapper::<String>::try_from(f.clone()).is_err(), "wrapper-wrong-type", || json!(f.flo_type()));
        }
        let (f, t) = h.flos.last().unwrap();
        let w = FloWrapper::<Obj>::try_from(f.clone()).unwrap();
        let s = signers_for(t, &p, &mut rng);
        let n: u32 = rng.gen();
        match w.edit_data_signers(t.cond(&p), |o| o.nbr = n, &s) {
            Ok(w2) => {
                let back = FloWrapper::<Obj>::try_from(w2.flo().clone());
                mon.check(
                    w2.cache().nbr == n && w2.cache().txt == w.cache().txt && w2.version() == w.version() + 1 && w2.flo_id() == w.flo_id() && back.as_ref().map(|b| b.cache() == w2.cache()).unwrap_or(false) && matches!(w2.verify(), Ok(true)) && matches!(w.verify(), Ok(true)),
                    "edit",
                    || json!({"cond": format!("{t:?}")}),
                );
                mon.check(w.hash() != w2.hash(), "wrapper-hash", || json!(""));
                let id = w.flo_id();
                let sp = VersionSpec::Exact(id.clone(), w2.version());
                mon.check(w2.fits_version(&sp) && !w.fits_version(&sp) && w.fits_version(&VersionSpec::Maximal(id.clone(), w2.version())) && !w2.fits_version(&VersionSpec::Minimal(flmodules::flo::flo::FloID::rnd(), 0)), "wrapper-fits", || json!(""));
            }
            Err(e) => mon.violation("honest-update-refused", json!({"cond": format!("{t:?}"), "err": e.to_string()})),
        }
        // Too few owners.
        let mut all = BTreeSet::new();
        t.verifiers(&mut all);
        for i in &all {
            let rest: BTreeSet<usize> = all.iter().filter(|j| *j != i).cloned().collect();
            for who in [BTreeSet::from([*i]), rest, BTreeSet::new()] {
                let s: Vec<&Signer> = who.iter().map(|i| &p.signers[*i]).collect();
                let before = w.clone();
                let r = w.edit_data_signers(t.cond(&p), |o| o.nbr = 5, &s);
                mon.check(r.is_ok() == t.holds(&who), "update-by-too-few", || json!({"cond": format!("{t:?}"), "signers": who, "ok": r.is_ok()}));
                mon.check(w == before, "refused-update-changes", || json!(format!("{t:?}")));
                mon.count("few_signers", 1);
            }
        }
        // An update prepared on one version doesn't apply to another.
        let mut w0 = w.clone();
        let u = w0.start_sign_data(t.cond(&p), obj(&mut rng));
        let s_all = signers_for(t, &p, &mut rng);
        let newer = w.edit_data_signers(t.cond(&p), |o| o.nbr = 77, &s_all);
        if let (Ok(u), Ok(mut newer)) = (u, newer) {
            mon.count("stale_updates", 1);
            // Without signatures it isn't applied either.
            let r = guarded(|| newer.update_data(u));
            mon.check_panics("update");
            mon.check(!matches!(r, Some(Ok(_))), "stale-update-applied", || json!(format!("{t:?}")));
            let u2 = w0.start_sign_data(t.cond(&p), obj(&mut rng)).unwrap();
            mon.check(w0.update_data(u2).is_err(), "unsigned-update-applied", || json!(format!("{t:?}")));
        }
        // The same for a Flo which needs no signatures, and thus has nothing but the version to
        // tell whether an update fits. New conditions keep version and object.
        let Ok(mut x) = FloWrapper::<Obj>::from_type(RealmID::rnd(), Condition::Pass, obj(&mut rng), &[]) else {
            mon.violation("honest-update-refused", json!("Pass"));
            continue;
        };
        let anybody = [Tree::Pass, Tree::NofT(0, vec![Tree::Ver(0)]), Tree::NofT(1, vec![Tree::Fail, Tree::Pass])];
        let mut tx = Tree::Pass;
        let id = x.flo_id();
        for k in 0..rng.gen_range(2..9) {
            if rng.gen_bool(0.5) {
                let t2 = pick(&mut rng, &anybody).clone();
                let r = x.start_sign_cond(tx.cond(&p), t2.cond(&p)).and_then(|u| x.update_cond(u));
                mon.count("cond_updates", 1);
                let ok = r.as_ref().map(|y| y.version() == x.version() && y.cache() == x.cache() && y.flo_id() == id && matches!(y.verify(), Ok(true)) && y.cond() == &t2.link(&p)).unwrap_or(false);
                mon.check(ok, "cond-update", || json!({"step": k, "err": r.as_ref().err().map(|e| e.to_string())}));
                let Ok(y) = r else { break };
                x = y;
                tx = t2;
            } else {
                let new = obj(&mut rng);
                let (u, u2) = (x.start_sign_data(tx.cond(&p), new.clone()), x.start_sign_data(tx.cond(&p), obj(&mut rng)));
                let r = u.and_then(|u| x.update_data(u));
                let ok = r.as_ref().map(|y| y.version() == x.version() + 1 && y.cache() == &new && y.flo_id() == id && matches!(y.verify(), Ok(true))).unwrap_or(false);
                mon.check(ok, "data-update", || json!({"step": k, "err": r.as_ref().err().map(|e| e.to_string())}));
                let Ok(mut y) = r else { break };
                if let Ok(u2) = u2 {
                    mon.count("stale_open", 1);
                    let r = y.update_data(u2);
                    mon.check(r.is_err(), "stale-update-applied", || json!({"step": k, "version": y.version()}));
                }
                x = y;
            }
            let back = FloWrapper::<Obj>::try_from(x.flo().clone());
            mon.check(back.map(|b| b.cache() == x.cache()).unwrap_or(false), "wrapper-cache", || json!({"step": k}));
        }
    }
    // Realms and forced ids.
    for c in 0..mon.n(60, 1000) {
        let Some(mut rng) = mon.begin(format!("realm-{c}")) else { continue };
        let t = owner_cond(&mut rng, 4);
        let name = rnd_string(&mut rng, 8);
        let cfg = RealmConfig { max_space: rng.gen(), max_flo_size: rng.gen() };
        let mut r = FloRealm::new(&name, t.cond(&p), cfg.clone(), &signers_for(&t, &p, &mut rng)).unwrap();
        mon.nontrivial(("realm", c));
        mon.check(r.realm_id().to_bytes() == r.flo_id().to_bytes() && matches!(r.verify(), Ok(true)), "realm-id", || json!(name));
        let id = r.flo_id();
        for i in 0..3 {
            match r.edit_data_signers(t.cond(&p), |r| r.set_service(&format!("s{i}"), U256::rnd().into()), &signers_for(&t, &p, &mut rng)) {
                Ok(r2) => r = r2,
                Err(e) => mon.violation("honest-update-refused", json!({"cond": format!("{t:?}"), "err": e.to_string()})),
            }
        }
        mon.check(r.flo_id() == id && r.realm_id().to_bytes() == id.to_bytes() && r.cache().get_name() == name && r.cache().get_config() == cfg && r.cache().get_services().len() == 3 && r.version() == 3 && matches!(r.verify(), Ok(true)), "realm-update", || json!(name));
        let back = FloRealm::try_from(r.flo().clone());
        mon.check(back.as_ref().map(|b| b.cache() == r.cache()).unwrap_or(false), "realm-decode", || json!(name));
        let rm: Realm = serde_yaml::from_str(&serde_yaml::to_string(r.cache()).unwrap()).unwrap();
        mon.check(rm == *r.cache(), "realm-decode", || json!(name));
        let force = U256::rnd();
        let a = FloWrapper::from_force_id(RealmID::rnd(), c as u32, force).unwrap();
        let b = FloWrapper::from_force_id(RealmID::rnd(), 7u32, force).unwrap();
        mon.check(a.flo_id() == b.flo_id() && a.flo_id() == Flo::calc_flo_id(&force), "forced-id", || json!(""));
        // A forced ID stays over all updates.
        let cfg = FloConfig { cuckoo: Cuckoo::None, force_id: Some(force) };
        let mut x = Flo::new_signer(RealmID::rnd(), t.cond(&p), &0u32, cfg, &signers_for(&t, &p, &mut rng)).unwrap();
        let mut tx = t.clone();
        for i in 0..rng.gen_range(1..9u32) {
            let r = if rng.gen_range(0..3) > 0 {
                x.update_data_signers(tx.cond(&p), i, &signers_for(&tx, &p, &mut rng))
            } else {
                let t2 = owner_cond(&mut rng, 4);
                let r = x.update_cond_signers(tx.cond(&p), t2.cond(&p), &signers_for(&tx, &p, &mut rng), &signers_for(&t2, &p, &mut rng));
                tx = t2;
                r
            };
            match r {
                Ok(n) => x = n,
                Err(e) => mon.violation("honest-update-refused", json!({"cond": format!("{t:?}"), "err": e.to_string()})),
            }
            mon.check(x.flo_id() == a.flo_id() && matches!(x.verify(), Ok(true)), "forced-id-changes", || json!({"updates": i + 1}));
        }
        // Two Flos with the same content have different ids.
        let x = Flo::new_signer(RealmID::zero(), t.cond(&p), &1u32, FloConfig::default(), &[&p.signers[0]]);
        let y = Flo::new_signer(RealmID::zero(), t.cond(&p), &1u32, FloConfig::default(), &[&p.signers[0]]);
        if let (Ok(x), Ok(y)) = (x, y) {
            mon.check(x.flo_id() != y.flo_id(), "same-id", || json!(""));
        }
    }
    let _: Option<Blob> = None;
}

fn main() {
    main_with(|mon, id| match id {
        "C01" => c01(mon),
        "C02" => c02(mon),
        "C03" => c03(mon),
        "C04" => c04(mon),
        "C05" => c05(mon),
        _ => panic!("unknown property"),
    })
}
