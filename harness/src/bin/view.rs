//! V01, V02: pages of a realm, found by their path and edited through RealmView.
use std::collections::{BTreeMap, BTreeSet, HashSet};

use bytes::Bytes;
use flarch::{
    broker::Broker,
    data_storage::DataStorageTemp,
    nodeids::{NodeID, U256},
};
use flcrypto::{
    access::Condition,
    signer::{Signer, SignerTrait},
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_storage::{
        broker::DHTStorage,
        core::{Cuckoo, DHTConfig, RealmConfig},
        realm_view::{RealmView, RealmViewBuilder},
    },
    flo::{
        blob::{Blob, BlobAccess, BlobFamily, BlobID, BlobPage, BlobPath, FloBlobPage, FloBlobTag},
        crypto::FloVerifier,
        flo::{Flo, FloID, FloWrapper},
        realm::{FloRealm, Realm, RealmID},
    },
    timer::Timer,
};
use mon::{
    drive, main_with, rt_paused,
    util::{pick, rnd_bytes, rnd_string},
    Mon,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};

type Bad = (String, Value);
type K = [u8; 32];

fn k(id: &BlobID) -> K {
    id.to_bytes()
}
fn bid(k: &K) -> BlobID {
    BlobID::from(U256::from(*k))
}
fn fid(k: &K) -> FloID {
    FloID::from(U256::from(*k))
}
fn short(k: &K) -> String {
    mon::util::hex(&k[..3])
}
fn shorts<'a>(v: impl IntoIterator<Item = &'a K>) -> Vec<String> {
    v.into_iter().map(short).collect()
}

// ------------------------------------------------------------------ who may do what
#[derive(Clone, Debug, PartialEq)]
enum C {
    Pass,
    Fail,
    V(usize),
    N(u32, Vec<C>),
}

impl C {
    fn random(rng: &mut StdRng, users: usize, deep: bool) -> C {
        match rng.gen_range(0..12) {
            0 => C::Pass,
            1 if rng.gen_bool(0.3) => C::Fail,
            2..=5 if deep => {
                let n = rng.gen_range(1..4);
                C::N(
                    rng.gen_range(1..=n as u32),
                    (0..n).map(|_| C::random(rng, users, false)).collect(),
                )
            }
            _ => C::V(rng.gen_range(0..users)),
        }
    }
    fn real(&self, u: &[Signer]) -> Condition {
        match self {
            C::Pass => Condition::Pass,
            C::Fail => Condition::Fail,
            C::V(i) => Condition::Verifier(u[*i].verifier()),
            C::N(t, v) => Condition::NofT(*t, v.iter().map(|c| c.real(u)).collect()),
        }
    }
    /// Whether all its parts can be looked up in the storage.
    fn known(&self, stored: &[bool]) -> bool {
        match self {
            C::V(i) => stored[*i],
            C::N(_, v) => v.iter().all(|c| c.known(stored)),
            _ => true,
        }
    }
    fn has(&self, i: usize) -> bool {
        match self {
            C::Pass => true,
            C::Fail => false,
            C::V(u) => *u == i,
            C::N(_, v) => v.iter().any(|c| c.has(i)),
        }
    }
    fn ok(&self, s: &[usize]) -> bool {
        match self {
            C::Pass => true,
            C::Fail => false,
            C::V(u) => s.contains(u),
            C::N(t, v) => v.iter().filter(|c| c.ok(s)).count() >= *t as usize,
        }
    }
    /// Signing a new object: nobody who has nothing to say signs, and the others are enough.
    fn signs(&self, s: &[usize]) -> bool {
        s.iter().all(|i| self.has(*i)) && self.ok(s)
    }
    fn who(&self, rng: &mut StdRng, users: usize) -> Vec<usize> {
        // Often those who may, sometimes others.
        let mut all: Vec<usize> = (0..users).collect();
        all.shuffle(rng);
        match rng.gen_range(0..10) {
            0..=6 => {
                all.retain(|u| self.has(*u));
                if rng.gen_bool(0.4) {
                    while all.len() > 1 && self.ok(&all[1..]) {
                        all.remove(0);
                    }
                }
                all.truncate(3);
            }
            7 => all.truncate(1),
            8 => all.truncate(2),
            _ => all.clear(),
        }
        all
    }
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug)]
struct Page {
    path: Option<String>,
    content: Vec<u8>,
    parents: Vec<K>,
    children: Vec<K>,
    cond: C,
}

fn of_flo(p: &FloBlobPage, cond: C) -> Page {
    Page {
        path: p.get_path().cloned(),
        content: p.get_data("index.html").map(|b| b.to_vec()).unwrap_or_default(),
        parents: p.get_parents().iter().map(k).collect(),
        children: p.get_children().iter().map(k).collect(),
        cond,
    }
}

fn sorted(v: &[K]) -> Vec<K> {
    let mut v = v.to_vec();
    v.sort();
    v
}

struct World {
    ds: DHTStorage,
    rid: RealmID,
    users: Vec<Signer>,
    stored: Vec<bool>,
    realm_cond: C,
    services: BTreeMap<String, K>,
    pages: BTreeMap<K, Page>,
    /// To which page a page is attached, besides its parents.
    cuckoo: BTreeMap<K, Vec<K>>,
    tags: BTreeMap<K, (String, C)>,
    evs: BTreeMap<&'static str, u64>,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "blog", "a b", "\u{e9}t\u{e9}", ".", "..", "A", "x", "y", "z", "page", "index.html", "%20", "#",
];

fn name(rng: &mut StdRng, unique: bool) -> String {
    if unique {
        return format!("{}{}", pick(rng, NAMES), rng.gen_range(0..1_000_000));
    }
    match rng.gen_range(0..20) {
        0 => "".into(),
        1 => rnd_string(rng, 6).replace(['/', '\n'], "_"),
        2 => "x/y".into(),
        _ => pick(rng, NAMES).to_string(),
    }
}

async fn start(storage: bool) -> DHTStorage {
    let _ = storage;
    let mut cfg = DHTConfig::default(NodeID::rnd());
    cfg.timeout = 1000;
    DHTStorage::start(
        Box::new(DataStorageTemp::new()),
        cfg,
        Timer::simul().broker,
        Broker::new(),
    )
    .await
    .unwrap()
}

impl World {
    fn ev(&mut self, e: &'static str) {
        *self.evs.entry(e).or_default() += 1;
    }
    fn signers(&self, s: &[usize]) -> Vec<Signer> {
        s.iter().map(|i| self.users[*i].clone()).collect()
    }
    /// Whether these may change something with this condition.
    fn may(&self, c: &C, s: &[usize]) -> bool {
        c.known(&self.stored) && c.ok(s)
    }
    fn group(&self, id: &K) -> Vec<K> {
        std::iter::once(*id)
            .chain(self.cuckoo.get(id).into_iter().flatten().cloned())
            .collect()
    }

    /// All pages which can be meant by this path, and whether at most one page has the name
    /// looked for at every step.
    fn lookup(&self, root: &K, path: &str) -> (BTreeSet<K>, bool) {
        let mut level: Vec<K> = self.group(root);
        let mut clear = true;
        let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
        for (i, part) in parts.iter().enumerate() {
            let found: BTreeSet<K> = level
                .iter()
                .filter(|id| {
                    self.pages
                        .get(*id)
                        .map(|p| p.path.as_deref() == Some(part))
                        .unwrap_or(false)
                })
                .cloned()
                .collect();
            clear &= found.len() <= 1;
            if i + 1 == parts.len() || found.is_empty() {
                return (found, clear);
            }
            level = found
                .iter()
                .flat_map(|f| self.pages[f].children.iter())
                .flat_map(|c| self.group(c))
                .collect();
        }
        unreachable!()
    }

    /// The names from the top to this page.
    fn full(&self, id: &K) -> Option<String> {
        let mut seen = HashSet::new();
        let mut names = vec![];
        let mut at = *id;
        loop {
            if !seen.insert(at) {
                return None;
            }
            let p = self.pages.get(&at)?;
            names.push(p.path.clone()?);
            match p.parents.first() {
                Some(up) => at = *up,
                None => break,
            }
        }
        names.reverse();
        Some(format!("/{}", names.join("/")))
    }

    /// Fetches everything into this view.
    async fn sync(&self, rv: &mut RealmView) -> Result<(), Bad> {
        for id in self.pages.keys() {
            rv.fetch_page(bid(id))
                .await
                .map_err(|e| ("fetch-failed".to_string(), json!({"e": e.to_string()})))?;
        }
        for id in self.tags.keys() {
            rv.fetch_tag(bid(id))
                .await
                .map_err(|e| ("fetch-failed".to_string(), json!({"e": e.to_string()})))?;
        }
        rv.update_all()
            .await
            .map_err(|e| ("update-failed".to_string(), json!({"e": e.to_string()})))
    }

    /// What the view shows is what was done, and what is stored.
    async fn compare(&mut self, rv: &RealmView, what: &str, full: bool) -> Result<(), Bad> {
        for (id, p) in &rv.pages.storage {
            let Some(m) = self.pages.get(&k(id)) else {
                return Err(("page-from-nowhere".into(), json!({"after": what, "page": short(&k(id))})));
            };
            let got = of_flo(p, m.cond.clone());
            if k(&p.blob_id()) != k(id)
                || got.path != m.path
                || got.content != m.content
                || got.parents != m.parents
                || sorted(&got.children) != sorted(&m.children)
            {
                return Err((
                    "wrong-page".into(),
                    json!({"after": what, "page": short(&k(id)), "path": [got.path, m.path.clone()],
                        "parents": [shorts(&got.parents), shorts(&m.parents)],
                        "children": [shorts(&got.children), shorts(&m.children)],
                        "content": got.content == m.content}),
                ));
            }
            let stored = self
                .ds
                .get_flo::<BlobPage>(&self.rid.global_id(fid(&k(id))))
                .await
                .map(|f| f.flo().clone());
            match stored {
                Ok(f) if f == *p.flo() => {}
                Ok(f) => {
                    return Err((
                        "view-differs-from-storage".into(),
                        json!({"after": what, "page": short(&k(id)), "stored": f.version(), "view": p.version()}),
                    ))
                }
                Err(e) => {
                    return Err((
                        "shown-but-not-stored".into(),
                        json!({"after": what, "page": short(&k(id)), "e": e.to_string()}),
                    ))
                }
            }
        }
        if full {
            for id in self.pages.keys() {
                if !rv.pages.storage.contains_key(&bid(id)) {
                    return Err(("page-missing".into(), json!({"after": what, "page": short(id)})));
                }
                let mut got: Vec<K> = rv
                    .pages
                    .cuckoos
                    .get(&bid(id))
                    .into_iter()
                    .flatten()
                    .map(k)
                    .collect();
                got.sort();
                let want = sorted(self.cuckoo.get(id).unwrap_or(&vec![]));
                if got != want {
                    return Err((
                        "wrong-cuckoos".into(),
                        json!({"after": what, "page": short(id), "got": shorts(&got), "want": shorts(&want)}),
                    ));
                }
            }
        }
        for (id, t) in &rv.tags.storage {
            let Some((name, _)) = self.tags.get(&k(id)) else {
                return Err(("tag-from-nowhere".into(), json!({"after": what})));
            };
            let stored = self
                .ds
                .get_flo::<flmodules::flo::blob::BlobTag>(&self.rid.global_id(fid(&k(id))))
                .await
                .map(|f| f.flo().clone())
                .ok();
            if t.values().get("name") != Some(name) || stored.as_ref() != Some(t.flo()) {
                return Err(("wrong-tag".into(), json!({"after": what, "stored": stored.is_some()})));
            }
        }
        if full && rv.tags.storage.len() != self.tags.len() {
            return Err(("tag-missing".into(), json!({"after": what})));
        }
        let got: BTreeMap<String, K> = rv
            .realm
            .cache()
            .get_services()
            .iter()
            .map(|(n, f)| (n.clone(), f.to_bytes()))
            .collect();
        let stored = self
            .ds
            .get_flo::<Realm>(&(&self.rid).into())
            .await
            .map(|f| f.flo().clone())
            .ok();
        if got != self.services || stored.as_ref() != Some(rv.realm.flo()) {
            return Err((
                "wrong-services".into(),
                json!({"after": what, "same_as_stored": stored.as_ref() == Some(rv.realm.flo()),
                    "got": got.keys().collect::<Vec<_>>(), "want": self.services.keys().collect::<Vec<_>>()}),
            ));
        }
        Ok(())
    }

    fn paths(&self, rng: &mut StdRng, root: &K) -> Vec<String> {
        // All paths up to a depth, and disturbed ones.
        let mut v = vec![];
        let mut todo: Vec<(String, Vec<K>)> = vec![(String::new(), self.group(root))];
        while let Some((pre, ids)) = todo.pop() {
            for id in ids {
                let Some(p) = self.pages.get(&id) else { continue };
                let Some(name) = &p.path else { continue };
                let path = format!("{pre}/{name}");
                if path.matches('/').count() < 6 && v.len() < 60 {
                    let kids = p.children.iter().flat_map(|c| self.group(c)).collect();
                    todo.push((path.clone(), kids));
                }
                v.push(path);
            }
        }
        v.shuffle(rng);
        v.truncate(40);
        let base = v.clone();
        for p in base.iter().take(12) {
            v.push(match rng.gen_range(0..9) {
                0 => format!("{p}/"),
                1 => format!("//{p}"),
                2 => p.trim_start_matches('/').to_string(),
                3 => format!("{p}/{}", pick(rng, NAMES)),
                4 => p.to_uppercase(),
                5 => p.replacen('/', "//", 2),
                6 => p.split('/').rev().collect::<Vec<_>>().join("/"),
                7 => format!("{p}{p}"),
                _ => p.chars().take(p.chars().count().saturating_sub(1)).collect(),
            });
        }
        v.extend(["", "/", "//", "nothing", "/a/b/c"].map(String::from));
        v
    }

    fn finding(&mut self, rng: &mut StdRng, rv: &RealmView) -> Result<(), Bad> {
        let root = k(&rv.pages.root);
        for path in self.paths(rng, &root) {
            let (cands, clear) = self.lookup(&root, &path);
            let got = rv.get_page_from_path(&path).ok().map(|p| k(&p.blob_id()));
            self.ev("lookups");
            let j = json!({"path": path, "got": got.as_ref().map(short), "can_be": shorts(&cands), "clear": clear});
            match &got {
                Some(g) if !cands.contains(g) => return Err(("wrong-page-found".into(), j)),
                None if clear && !cands.is_empty() => return Err(("page-not-found".into(), j)),
                _ => {}
            }
            if got.is_some() {
                self.ev("found");
                if path.trim_start_matches('/').contains('/') {
                    self.ev("found_below");
                }
            }
            if !path.trim_start_matches('/').contains('/')
                && Some(path.trim_start_matches('/')) == self.pages.get(&root).and_then(|p| p.path.as_deref())
                && got != Some(root)
            {
                return Err(("root-hidden".into(), j));
            }
            // The parent and the rest.
            let pr = rv
                .get_page_parent_remaining(&path)
                .ok()
                .map(|(p, r)| (k(&p.blob_id()), r));
            let want = path
                .rfind('/')
                .filter(|l| *l > 0 && path.starts_with('/') && *l + 1 < path.len())
                .map(|l| (&path[1..l], &path[l + 1..]));
            let (cands, clear, rest) = match want {
                Some((up, rest)) => {
                    let (c, cl) = self.lookup(&root, up);
                    (c, cl, rest)
                }
                None => (BTreeSet::new(), true, ""),
            };
            let fits = match &pr {
                Some((p, r)) => cands.contains(p) && r == rest,
                None => !clear || cands.is_empty(),
            };
            if pr.is_some() {
                self.ev("parents_found");
            }
            if !fits {
                return Err((
                    "wrong-parent-of-path".into(),
                    json!({"path": path, "got": pr.map(|(p, r)| (short(&p), r)), "can_be": shorts(&cands), "rest": rest}),
                ));
            }
        }
        // Full paths, and back.
        for (id, p) in &rv.pages.storage {
            let want = self.full(&k(id));
            let got = rv.get_full_path_blob(p).ok();
            let got2 = rv.get_full_path_id(id).ok();
            self.ev("full_paths");
            if got != want || got2 != want {
                return Err((
                    "wrong-full-path".into(),
                    json!({"page": short(&k(id)), "got": got, "by_id": got2, "want": want}),
                ));
            }
            let Some(path) = want else {
                self.ev("no_full_path");
                continue;
            };
            // If the links lead down to this page, its path finds it.
            let mut at = k(id);
            let mut linked = true;
            while let Some(up) = self.pages[&at].parents.first() {
                linked &= self.pages[up].children.iter().any(|c| self.group(c).contains(&at))
                    && !self.pages[&at].path.as_ref().unwrap().contains('/');
                at = *up;
            }
            linked &= self.group(&root).contains(&at);
            let (_, clear) = self.lookup(&root, &path);
            if linked && clear && !self.pages[&at].path.as_ref().unwrap().is_empty() && !self.pages[&at].path.as_ref().unwrap().contains('/') {
                self.ev("round_trips");
                let back = rv.get_page_from_path(&path).ok().map(|p| k(&p.blob_id()));
                if back != Some(k(id)) {
                    return Err((
                        "full-path-leads-elsewhere".into(),
                        json!({"page": short(&k(id)), "path": path, "back": back.as_ref().map(short)}),
                    ));
                }
            }
        }
        for id in rv.tags.storage.keys() {
            let _ = rv.get_full_path_id(id);
        }
        let _ = rv.get_full_path_id(&BlobID::rnd());
        let same = rv.get_root_page().map(|p| k(&p.blob_id()));
        if same != self.pages.get(&root).map(|_| root) {
            return Err(("wrong-root".into(), json!({})));
        }
        Ok(())
    }

    // -------------------------------------------------------------- operations
    fn any_page(&self, rng: &mut StdRng) -> K {
        let v: Vec<&K> = self.pages.keys().collect();
        **pick(rng, &v)
    }

    fn attach(&mut self, id: &K, cuckoo: &Cuckoo) {
        // Only pages which are known can hold others, and only where they are stored.
        if let Cuckoo::Parent(p) = cuckoo {
            let p = p.to_bytes();
            if self.pages.contains_key(&p) {
                let v = self.cuckoo.entry(p).or_default();
                if !v.contains(id) {
                    v.push(*id);
                }
            }
        }
    }

    fn rnd_cuckoo(&self, rng: &mut StdRng, root: &K) -> Cuckoo {
        match rng.gen_range(0..8) {
            0..=2 => Cuckoo::Parent(fid(root)),
            3 => Cuckoo::Parent(fid(&self.any_page(rng))),
            4 => Cuckoo::Duration(rng.gen()),
            _ => Cuckoo::None,
        }
    }

    async fn create(&mut self, rng: &mut StdRng, rv: &mut RealmView, unique: bool) -> Result<String, Bad> {
        let root = k(&rv.pages.root);
        let parent = match rng.gen_range(0..10) {
            0..=1 => None,
            2 => Some(BlobID::rnd().to_bytes()),
            3..=4 => Some(root),
            _ => Some(self.any_page(rng)),
        };
        let cond = C::random(rng, self.users.len(), true);
        let mut who = cond.who(rng, self.users.len());
        if let Some(p) = parent.and_then(|p| self.pages.get(&p)) {
            // Often the same may change both.
            if rng.gen_bool(0.5) {
                who = p.cond.who(rng, self.users.len());
            }
        }
        let cond = if rng.gen_bool(0.5) && !who.is_empty() {
            C::N(1, who.iter().map(|u| C::V(*u)).collect())
        } else {
            cond
        };
        let n = name(rng, unique);
        let content = rnd_string(rng, 10);
        let cuckoo = self.rnd_cuckoo(rng, &root);
        let sig = self.signers(&who);
        let sig: Vec<&Signer> = sig.iter().collect();
        let r = rv
            .create_http_cuckoo(
                &n,
                content.clone(),
                parent.map(|p| bid(&p)),
                cond.real(&self.users),
                cuckoo.clone(),
                &sig,
            )
            .await;
        let what = format!("create({n:?}, {cond:?}, by {who:?}, below {:?})", parent.map(|p| self.pages.get(&p).map(|p| p.cond.clone())));
        let want = cond.signs(&who);
        match r {
            Err(_) if !want => self.ev("creations_refused"),
            Err(e) => return Err(("create-refused".into(), json!({"what": what, "e": e.to_string()}))),
            Ok(_) if !want => return Err(("created-without-right".into(), json!({"what": what}))),
            Ok(fp) => {
                let id = k(&fp.blob_id());
                self.pages.insert(
                    id,
                    Page {
                        path: Some(n),
                        content: content.into_bytes(),
                        parents: parent.into_iter().collect(),
                        children: vec![],
                        cond,
                    },
                );
                self.attach(&id, &cuckoo);
                self.ev("created");
                if let Some(pc) = parent.and_then(|p| self.pages.get(&p)).map(|p| p.cond.clone()) {
                    if self.may(&pc, &who) {
                        self.pages.get_mut(&parent.unwrap()).unwrap().children.push(id);
                        self.ev("linked");
                        if !who.iter().all(|u| pc.has(*u)) {
                            self.ev("linked_with_more_signers");
                        }
                    } else {
                        self.ev("not_linked");
                    }
                }
            }
        }
        Ok(what)
    }

    async fn update(&mut self, rng: &mut StdRng, rv: &mut RealmView, unique: bool) -> Result<String, Bad> {
        let id = if rng.gen_bool(0.03) { BlobID::rnd().to_bytes() } else { self.any_page(rng) };
        let old = self.pages.get(&id).cloned();
        let cond = old.as_ref().map(|p| p.cond.clone()).unwrap_or(C::Pass);
        let who = cond.who(rng, self.users.len());
        let content = rng.gen_bool(0.6).then(|| rnd_string(rng, 12));
        let path = rng.gen_bool(0.3).then(|| name(rng, unique));
        let parents = rng.gen_bool(0.6).then(|| {
            let n = *pick(rng, &[0, 1, 1, 1, 2, 3]);
            let mut v: Vec<K> = (0..n)
                .map(|_| {
                    if rng.gen_bool(0.05) {
                        BlobID::rnd().to_bytes()
                    } else {
                        self.any_page(rng)
                    }
                })
                .collect();
            let mut seen = HashSet::new();
            v.retain(|x| seen.insert(*x));
            v
        });
        // Single links: 0 and 1 add and remove a parent, 2 and 3 a child.
        let links: Vec<(u8, K)> = if rng.gen_bool(0.3) {
            (0..rng.gen_range(1..4))
                .map(|_| {
                    let known = old
                        .iter()
                        .flat_map(|o| o.parents.iter().chain(&o.children))
                        .cloned()
                        .collect::<Vec<_>>();
                    let to = if !known.is_empty() && rng.gen_bool(0.5) {
                        *pick(rng, &known)
                    } else {
                        self.any_page(rng)
                    };
                    (rng.gen_range(0..4), to)
                })
                .collect()
        } else {
            vec![]
        };
        let l2 = links.clone();
        let sig = self.signers(&who);
        let sig: Vec<&Signer> = sig.iter().collect();
        let (c2, p2, pa2) = (content.clone(), path.clone(), parents.clone());
        let r = rv
            .update_page(
                &bid(&id),
                move |p| {
                    if let Some(c) = c2 {
                        p.set_data("index.html".into(), Bytes::from(c));
                    }
                    if let Some(n) = p2 {
                        p.set_path(n);
                    }
                    if let Some(pa) = pa2 {
                        p.set_parents(pa.iter().map(bid).collect());
                    }
                    for (what, to) in l2 {
                        match what {
                            0 => p.add_parent(bid(&to)),
                            1 => p.rm_parent(&bid(&to)),
                            2 => p.add_child(bid(&to)),
                            _ => p.rm_child(&bid(&to)),
                        }
                    }
                },
                &sig,
            )
            .await;
        let what = format!("update({:?}, {cond:?}, by {who:?}, new parents {:?})", old.as_ref().map(|o| o.path.clone()), parents.as_ref().map(|p| shorts(p)));
        // With parts of the condition missing, only some signatures can be checked: nobody
        // can say what will be done, as long as nothing half is done.
        let want = old.is_some() && cond.signs(&who) && cond.known(&self.stored);
        match r {
            Err(_) if !want => self.ev("updates_refused"),
            Err(e) => return Err(("update-refused".into(), json!({"what": what, "e": e.to_string()}))),
            Ok(_) if !want => return Err(("updated-without-right".into(), json!({"what": what}))),
            Ok(fp) => {
                self.ev("updated");
                let m = self.pages.get_mut(&id).unwrap();
                let before: BTreeSet<K> = m.parents.iter().cloned().collect();
                if let Some(c) = content {
                    m.content = c.into_bytes();
                }
                if let Some(n) = path {
                    m.path = Some(n);
                }
                if let Some(pa) = parents {
                    m.parents = pa;
                }
                for (what, to) in links {
                    match what {
                        0 => m.parents.push(to),
                        1 => m.parents.retain(|x| *x != to),
                        2 => m.children.push(to),
                        _ => m.children.retain(|x| *x != to),
                    }
                }
                let after: BTreeSet<K> = m.parents.iter().cloned().collect();
                let mine = of_flo(&fp, cond.clone());
                if mine.path != m.path || mine.content != m.content || mine.parents != m.parents {
                    return Err(("wrong-page-returned".into(), json!({"what": what})));
                }
                for p in before.symmetric_difference(&after) {
                    let Some(pc) = self.pages.get(p).map(|p| p.cond.clone()) else { continue };
                    if !self.may(&pc, &who) {
                        self.ev("parent_not_changed");
                        continue;
                    }
                    let more = !who.iter().all(|u| pc.has(*u));
                    let pp = self.pages.get_mut(p).unwrap();
                    pp.children.retain(|c| *c != id);
                    if after.contains(p) {
                        pp.children.push(id);
                        self.ev("link_added");
                    } else {
                        self.ev("link_removed");
                    }
                    if more {
                        self.ev("linked_with_more_signers");
                    }
                }
            }
        }
        Ok(what)
    }

    async fn service(&mut self, rng: &mut StdRng, rv: &mut RealmView) -> Result<String, Bad> {
        let http = rng.gen_bool(0.5);
        let id = if http {
            self.any_page(rng)
        } else {
            **pick(rng, &self.tags.keys().collect::<Vec<_>>())
        };
        let who = self.realm_cond.clone().who(rng, self.users.len());
        let sig = self.signers(&who);
        let sig: Vec<&Signer> = sig.iter().collect();
        let r = if http {
            rv.set_realm_http(bid(&id), &sig).await
        } else {
            rv.set_realm_tag(bid(&id), &sig).await
        };
        let what = format!("service({http}, {:?}, by {who:?})", self.realm_cond);
        let want = self.realm_cond.signs(&who) && self.realm_cond.known(&self.stored);
        match r {
            Err(_) if !want => self.ev("services_refused"),
            Err(e) => return Err(("service-refused".into(), json!({"what": what, "e": e.to_string()}))),
            Ok(_) if !want => return Err(("service-set-without-right".into(), json!({"what": what}))),
            Ok(_) => {
                self.ev("services_set");
                let n = if http { "http" } else { "tag" };
                self.services.insert(n.into(), id);
                if rv.get_realm_service(n).await.map(|f| f.to_bytes()) != Some(id) {
                    return Err(("service-not-set".into(), json!({"what": what})));
                }
            }
        }
        Ok(what)
    }

    fn tag(&mut self, rng: &mut StdRng, rv: &mut RealmView) -> Result<String, Bad> {
        let cond = C::random(rng, self.users.len(), true);
        let who = cond.who(rng, self.users.len());
        let n = name(rng, false);
        let sig = self.signers(&who);
        let sig: Vec<&Signer> = sig.iter().collect();
        let cuckoo = match rng.gen_range(0..3) {
            0 => Cuckoo::Parent(fid(&k(&rv.tags.root))),
            _ => Cuckoo::None,
        };
        let r = rv.create_tag_cuckoo(&n, None, cond.real(&self.users), cuckoo, &sig);
        let what = format!("tag({cond:?}, by {who:?})");
        let want = cond.signs(&who);
        match r {
            Err(_) if !want => self.ev("tags_refused"),
            Err(e) => return Err(("tag-refused".into(), json!({"what": what, "e": e.to_string()}))),
            Ok(_) if !want => return Err(("tag-created-without-right".into(), json!({"what": what}))),
            Ok(t) => {
                self.ev("tags_created");
                self.tags.insert(k(&t.blob_id()), (n, cond));
            }
        }
        Ok(what)
    }

    /// A page or a tag changed by its owner, outside of the view, which is then given the new one.
    fn edited(&mut self, rng: &mut StdRng, rv: &mut RealmView) -> Result<String, Bad> {
        if rng.gen_bool(0.6) {
            let ids: Vec<&K> = self.tags.keys().collect();
            let id = **pick(rng, &ids);
            let Some(old) = rv.tags.storage.get(&bid(&id)).cloned() else {
                return Ok("edited(unknown)".into());
            };
            let cond = self.tags[&id].1.clone();
            let who = cond.who(rng, self.users.len());
            let sig = self.signers(&who);
            let sig: Vec<&Signer> = sig.iter().collect();
            let n = name(rng, false);
            let what = format!("edited(tag {}, {cond:?}, by {who:?})", short(&id));
            let n2 = n.clone();
            let old_name = self.tags[&id].0.clone();
            let r = old
                .edit_data_signers(cond.real(&self.users), move |t| {
                    t.values_mut().insert("name".into(), n2);
                }, &sig)
                .and_then(|t| rv.store_tag(t));
            match r {
                Ok(_) if cond.signs(&who) => {
                    self.ev("tags_edited");
                    self.tags.get_mut(&id).unwrap().0 = n;
                }
                // What changes nothing needs no rights.
                Ok(_) if n == old_name => {}
                Ok(_) => return Err(("tag-stored-without-right".into(), json!({"what": what}))),
                Err(e) if cond.signs(&who) => {
                    return Err(("tag-refused".into(), json!({"what": what, "e": e.to_string()})))
                }
                Err(_) => self.ev("tag_edits_refused"),
            }
            return Ok(what);
        }
        let id = self.any_page(rng);
        let Some(old) = rv.pages.storage.get(&bid(&id)).cloned() else {
            return Ok("edited(unknown)".into());
        };
        let m = self.pages[&id].clone();
        let who = m.cond.who(rng, self.users.len());
        let sig = self.signers(&who);
        let sig: Vec<&Signer> = sig.iter().collect();
        let what = format!("edited(page {}, {:?}, by {who:?})", short(&id), m.cond);
        // Always something which wasn't there before.
        let c = format!("edited {}", rng.gen::<u64>());
        let c2 = c.clone();
        let r = old
            .edit_data_signers(
                m.cond.real(&self.users),
                move |p| p.set_data("index.html".into(), Bytes::from(c2)),
                &sig,
            )
            .and_then(|p| rv.store_page(p));
        match r {
            Ok(_) if m.cond.signs(&who) => {
                self.ev("pages_edited");
                self.pages.get_mut(&id).unwrap().content = c.into_bytes();
            }
            Ok(_) => return Err(("page-stored-without-right".into(), json!({"what": what}))),
            Err(e) if m.cond.signs(&who) => {
                return Err(("page-refused".into(), json!({"what": what, "e": e.to_string()})))
            }
            Err(_) => self.ev("page_edits_refused"),
        }
        Ok(what)
    }

    /// Pages stored by somebody who doesn't care about the rules.
    fn hostile(&mut self, rng: &mut StdRng, root: &K) -> Result<String, Bad> {
        let pass = Condition::Pass;
        let cuckoo = match rng.gen_range(0..4) {
            0 => Cuckoo::None,
            1 => Cuckoo::Parent(fid(&self.any_page(rng))),
            _ => Cuckoo::Parent(fid(root)),
        };
        let n = rng.gen_range(1..4);
        let mut new = vec![];
        for _ in 0..n {
            let mut b = Blob::new("re.fledg.page");
            if rng.gen_bool(0.9) {
                b.set_path(name(rng, false));
            }
            if rng.gen_bool(0.5) {
                let l = rng.gen_range(0..20);
                b.set_data("index.html".into(), Bytes::from(rnd_bytes(rng, l)));
            }
            let p: FloBlobPage =
                FloWrapper::from_type_cuckoo(self.rid.clone(), pass.clone(), cuckoo.clone(), BlobPage(b), &[]).unwrap();
            new.push(p);
        }
        let mut ids: Vec<K> = new.iter().map(|p| k(&p.blob_id())).collect();
        if rng.gen_bool(0.4) {
            ids.extend([self.any_page(rng), BlobID::rnd().to_bytes()]);
        }
        for p in &mut new {
            let mut some = |rng: &mut StdRng| -> Vec<BlobID> {
                (0..rng.gen_range(0..4)).map(|_| bid(pick(rng, &ids))).collect()
            };
            let (pa, ch) = (some(rng), some(rng));
            *p = p
                .edit_data_signers(
                    pass.clone(),
                    |p| {
                        p.set_parents(pa);
                        p.set_children(ch);
                    },
                    &[],
                )
                .unwrap();
        }
        for p in &new {
            self.ds.store_flo(p.flo().clone()).unwrap();
            self.pages.insert(k(&p.blob_id()), of_flo(p, C::Pass));
        }
        for p in &new {
            self.attach(&k(&p.blob_id()), &cuckoo);
        }
        // And things which are no pages at the places where pages are.
        if rng.gen_bool(0.4) {
            let t = FloBlobTag::new_cuckoo(self.rid.clone(), pass.clone(), "a", None, cuckoo, &[]).unwrap();
            self.ds.store_flo(t.flo().clone()).unwrap();
        }
        self.ev("hostile");
        Ok(format!("hostile({:?})", shorts(&ids)))
    }
}

async fn mk_world(rng: &mut StdRng) -> Result<(World, RealmView), Bad> {
    let ds = start(true).await;
    let users: Vec<Signer> = (0..4).map(|_| SignerEd25519::new()).collect();
    // The first one is always known.
    let stored: Vec<bool> = (0..4).map(|i| i == 0 || rng.gen_bool(0.85)).collect();
    let mut realm_cond = C::random(rng, 4, true);
    if !realm_cond.ok(&[0, 1, 2, 3]) {
        realm_cond = C::V(0);
    }
    let sat = |rng: &mut StdRng, c: &C| -> Vec<usize> {
        for _ in 0..100 {
            let w = c.who(rng, 4);
            if c.signs(&w) {
                return w;
            }
        }
        (0..4).filter(|u| c.has(*u)).collect()
    };
    let page_cond = loop {
        let c = C::random(rng, 4, true);
        if c.ok(&[0, 1, 2, 3]) {
            break c;
        }
    };
    let sg = |v: Vec<usize>| -> Vec<Signer> { v.iter().map(|u| users[*u].clone()).collect() };
    let root_name = name(rng, true);
    let rs = sg(sat(rng, &realm_cond));
    let ps = sg(sat(rng, &page_cond));
    let root_cuckoo = *pick(rng, &[0u32, 1000, u32::MAX]);
    let rv = RealmViewBuilder::new(ds.clone(), "realm".into(), realm_cond.real(&users), rs.clone())
        .config(RealmConfig {
            max_space: 10_000_000,
            max_flo_size: 1_000_000,
        })
        .root_http_cuckoo(
            root_name.clone(),
            "root".into(),
            None,
            page_cond.real(&users),
            Cuckoo::Duration(root_cuckoo),
            ps,
        )
        .root_tag("tag".into(), None, realm_cond.real(&users), rs)
        .build()
        .await
        .map_err(|e| ("build-refused".to_string(), json!({"e": e.to_string(), "realm": format!("{realm_cond:?}"), "page": format!("{page_cond:?}")})))?;
    let rid = rv.realm.realm_id();
    let mut w = World {
        ds,
        rid: rid.clone(),
        users,
        stored,
        realm_cond: realm_cond.clone(),
        services: BTreeMap::new(),
        pages: BTreeMap::new(),
        cuckoo: BTreeMap::new(),
        tags: BTreeMap::new(),
        evs: BTreeMap::new(),
    };
    for i in 0..4 {
        if w.stored[i] {
            let f = FloVerifier::new(rid.clone(), w.users[i].verifier());
            w.ds.store_flo(f.flo().clone()).unwrap();
        }
    }
    w.services.insert("http".into(), k(&rv.pages.root));
    w.services.insert("tag".into(), k(&rv.tags.root));
    w.pages.insert(
        k(&rv.pages.root),
        Page {
            path: Some(root_name),
            content: b"root".to_vec(),
            parents: vec![],
            children: vec![],
            cond: page_cond,
        },
    );
    w.tags.insert(k(&rv.tags.root), ("tag".into(), realm_cond));
    Ok((w, rv))
}

async fn view_case(rng: &mut StdRng, prop: &str) -> Result<(BTreeMap<&'static str, u64>, Vec<String>), Bad> {
    let (mut w, first) = mk_world(rng).await?;
    let mut trace: Vec<String> = vec![];
    w.compare(&first, "build", true).await?;
    let mut views = vec![first];
    for _ in 0..rng.gen_range(0..2) {
        views.push(w.ds.get_realm_view(w.rid.clone()).await.map_err(|e| ("no-view".to_string(), json!({"e": e.to_string()})))?);
    }
    let unique = rng.gen_bool(0.5);
    let hostile = rng.gen_bool(0.5);
    let mut at = 0;
    let fail = |b: Bad, trace: &Vec<String>| -> Bad {
        let mut v = b.1;
        v["steps"] = json!(trace);
        (b.0, v)
    };
    for step in 0..rng.gen_range(3..16) {
        if views.len() > 1 && rng.gen_bool(0.3) {
            at = 1 - at;
            let mut v = views[at].clone();
            // Everything which is in the view is brought up to date.
            v.update_all().await.map_err(|e| ("update-failed".to_string(), json!({"e": e.to_string()})))?;
            w.compare(&v, "update_all", false).await.map_err(|e| fail(e, &trace))?;
            w.sync(&mut v).await?;
            w.compare(&v, "sync", true).await.map_err(|e| fail(e, &trace))?;
            views[at] = v;
            trace.push(format!("view {at}"));
        }
        let mut rv = views[at].clone();
        let op = rng.gen_range(0..25);
        let what = match op {
            0..=8 => w.create(rng, &mut rv, unique).await,
            9..=14 => w.update(rng, &mut rv, unique).await,
            15 => w.service(rng, &mut rv).await,
            16 => w.tag(rng, &mut rv),
            22 | 23 => w.edited(rng, &mut rv),
            17..=21 if hostile => {
                let root = k(&rv.pages.root);
                let r = w.hostile(rng, &root);
                w.sync(&mut rv).await?;
                r
            }
            _ => {
                // A new view starts with the services of the realm.
                rv = RealmView::new_from_id(w.ds.clone(), w.rid.clone())
                    .await
                    .map_err(|e| ("no-view".to_string(), json!({"e": e.to_string()})))?;
                if k(&rv.pages.root) != w.services["http"] || k(&rv.tags.root) != w.services["tag"] {
                    return Err(fail(("wrong-root".into(), json!({})), &trace));
                }
                w.compare(&rv, "new view", false).await.map_err(|e| fail(e, &trace))?;
                for id in w.group(&w.services["http"]) {
                    if !rv.pages.storage.contains_key(&bid(&id)) {
                        return Err(fail(("new-view-incomplete".into(), json!({"missing": short(&id)})), &trace));
                    }
                }
                w.ev("new_views");
                w.sync(&mut rv).await?;
                Ok("new view".into())
            }
        };
        let what = what.map_err(|e| fail(e, &trace))?;
        trace.push(what.clone());
        w.compare(&rv, &what, false).await.map_err(|e| fail(e, &trace))?;
        if prop == "V01" {
            let mut v = rv.clone();
            w.sync(&mut v).await?;
            w.compare(&v, "sync", true).await.map_err(|e| fail(e, &trace))?;
            w.finding(rng, &v).map_err(|e| fail(e, &trace))?;
        }
        views[at] = rv;
        let _ = step;
    }
    let mut v = views[at].clone();
    w.sync(&mut v).await?;
    w.compare(&v, "end", true).await.map_err(|e| fail(e, &trace))?;
    Ok((w.evs, trace))
}

/// Realms with some of their parts, of which the first complete one is used.
async fn first_case(rng: &mut StdRng) -> Result<(BTreeMap<&'static str, u64>, Vec<String>), Bad> {
    let mut ds = start(true).await;
    let mut complete = BTreeSet::new();
    let mut all = vec![];
    let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut trace = vec![];
    for _ in 0..rng.gen_range(0..5) {
        let cfg = RealmConfig {
            max_space: 1_000_000,
            max_flo_size: 100_000,
        };
        let realm = FloRealm::new(&rnd_string(rng, 5), Condition::Pass, cfg, &[]).unwrap();
        let rid = realm.realm_id();
        let kind = rng.gen_range(0..5);
        let page = FloBlobPage::new(rid.clone(), Condition::Pass, "p", Bytes::new(), None, &[]).unwrap();
        let tag = FloBlobTag::new(rid.clone(), Condition::Pass, "t", None, &[]).unwrap();
        let realm = realm
            .edit_data_signers(
                Condition::Pass,
                |r| {
                    if kind & 1 == 1 || kind == 4 {
                        r.set_service("http", page.flo_id());
                    }
                    if kind & 2 == 2 || kind == 4 {
                        r.set_service("tag", tag.flo_id());
                    }
                },
                &[],
            )
            .unwrap();
        ds.store_flo(realm.flo().clone()).unwrap();
        let flos: Vec<Flo> = vec![page.flo().clone(), tag.flo().clone()];
        for f in flos {
            ds.store_flo(f).unwrap();
        }
        all.push((rid.to_bytes(), kind >= 3));
        if kind >= 3 {
            complete.insert(rid.to_bytes());
        }
        trace.push(format!("{kind}"));
    }
    let got = RealmView::new_first(ds.clone()).await.ok().map(|v| v.realm.realm_id().to_bytes());
    let fits = match &got {
        Some(id) => complete.contains(id),
        None => complete.is_empty(),
    };
    *evs.entry(if got.is_some() { "first_found" } else { "first_missing" }).or_default() += 1;
    if !fits {
        return Err(("wrong-first-realm".into(), json!({"kinds": trace, "found": got.is_some()})));
    }
    all.push((RealmID::rnd().to_bytes(), false));
    for (id, good) in all {
        let r = ds.get_realm_view(RealmID::from(U256::from(id))).await.is_ok();
        if r != good {
            return Err(("wrong-realm-view".into(), json!({"complete": good, "view": r})));
        }
    }
    Ok((evs, trace))
}

/// Building a realm without the necessary keys.
async fn build_case(rng: &mut StdRng) -> Result<(BTreeMap<&'static str, u64>, Vec<String>), Bad> {
    let ds = start(true).await;
    let users: Vec<Signer> = (0..4).map(|_| SignerEd25519::new()).collect();
    let c: Vec<C> = (0..3).map(|_| C::random(rng, 4, true)).collect();
    let who: Vec<Vec<usize>> = c.iter().map(|c| c.who(rng, 4)).collect();
    let sg = |v: &[usize]| -> Vec<Signer> { v.iter().map(|u| users[*u].clone()).collect() };
    let want = (0..3).all(|i| c[i].signs(&who[i]));
    let mut b = RealmViewBuilder::new(ds.clone(), "realm".into(), c[0].real(&users), sg(&who[0]));
    let page = rng.gen_bool(0.95);
    let tag = rng.gen_bool(0.95);
    if page {
        b = b.root_http("p".into(), "c".into(), None, c[1].real(&users), sg(&who[1]));
    }
    if tag {
        b = b.root_tag("t".into(), None, c[2].real(&users), sg(&who[2]));
    }
    let want = want && page && tag;
    let mut evs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let trace = vec![format!("{c:?} by {who:?}")];
    let mut ds = ds;
    match b.build().await {
        Err(_) if !want => *evs.entry("builds_refused").or_default() += 1,
        Err(e) => return Err(("build-refused".into(), json!({"what": trace, "e": e.to_string()}))),
        Ok(_) if !want => return Err(("built-without-right".into(), json!({"what": trace, "page": page, "tag": tag}))),
        Ok(rv) => {
            *evs.entry("built").or_default() += 1;
            let again = ds.get_realm_view(rv.realm.realm_id()).await;
            let ok = again
                .map(|a| {
                    a.get_root_page().map(|p| p.flo().clone()) == rv.get_root_page().map(|p| p.flo().clone())
                        && a.get_root_page().is_some()
                        && a.get_root_tag().is_some()
                        && a.get_root_tag().map(|p| p.flo().clone()) == rv.get_root_tag().map(|p| p.flo().clone())
                        && a.realm.flo() == rv.realm.flo()
                })
                .unwrap_or(false);
            if !ok {
                return Err(("built-but-not-stored".into(), json!({"what": trace})));
            }
        }
    }
    Ok((evs, trace))
}

/// Very deep structures, as anybody can store.
async fn deep_case(rng: &mut StdRng) -> Result<(BTreeMap<&'static str, u64>, Vec<String>), Bad> {
    let (w, mut rv) = mk_world(rng).await?;
    let n = *pick(rng, &[100usize, 3_000, 30_000]);
    // A chain of pages, each one the parent of the next.
    let mut up: Option<BlobID> = None;
    let mut last = None;
    for _ in 0..n {
        let p = FloBlobPage::new(w.rid.clone(), Condition::Pass, "a", Bytes::new(), up.clone(), &[]).unwrap();
        up = Some(p.blob_id());
        last = Some(p.blob_id());
        rv.pages.storage.insert(p.blob_id(), p);
    }
    let full = rv.get_full_path_id(&last.unwrap()).map_err(|e| ("no-full-path".to_string(), json!({"e": e.to_string()})))?;
    if full != "/a".repeat(n) {
        return Err(("wrong-full-path".into(), json!({"depth": n})));
    }
    // A page which is its own child and parent.
    let p: FloBlobPage = FloWrapper::from_type_cuckoo(
        w.rid.clone(),
        Condition::Pass,
        Cuckoo::Parent(fid(&k(&rv.pages.root))),
        BlobPage({
            let mut b = Blob::new("re.fledg.page");
            b.set_path("self".into());
            b
        }),
        &[],
    )
    .unwrap();
    let me = p.blob_id();
    let p = p
        .edit_data_signers(
            Condition::Pass,
            |b| {
                b.set_children(vec![me.clone()]);
                b.set_parents(vec![me.clone()]);
            },
            &[],
        )
        .unwrap();
    w.ds.clone().store_flo(p.flo().clone()).unwrap();
    rv.update_all().await.map_err(|e| ("update-failed".to_string(), json!({"e": e.to_string()})))?;
    if rv.get_full_path_id(&me).is_ok() {
        return Err(("full-path-of-a-loop".into(), json!({})));
    }
    let path = "/self".repeat(n);
    let t = std::time::Instant::now();
    let got = rv.get_page_from_path(&path).ok().map(|p| k(&p.blob_id()));
    if got != Some(k(&me)) {
        return Err(("page-not-found".into(), json!({"depth": n})));
    }
    if t.elapsed().as_secs() > 20 {
        return Err(("lookup-takes-too-long".into(), json!({"depth": n, "seconds": t.elapsed().as_secs()})));
    }
    Ok((BTreeMap::from([("deep", 1)]), vec![format!("{n}")]))
}

fn v01(m: &mut Mon, id: &str) {
    if id == "V01" {
        m.rule("random sequences of operations and hostile pages, all paths looked up after each step; distinct = sequence of operations");
        for (e, n) in [
            ("lookups", 5000),
            ("found", 2000),
            ("found_below", 500),
            ("parents_found", 300),
            ("full_paths", 1000),
            ("no_full_path", 50),
            ("round_trips", 200),
            ("hostile", 40),
            ("new_views", 30),
            ("deep", 3),
            ("first_found", 2),
            ("first_missing", 2),
        ] {
            m.require(e, n);
        }
    } else {
        m.rule("random sequences of operations by users with and without rights, view and storage compared with a model after each step; distinct = sequence of operations");
        for (e, n) in [
            ("created", 1000),
            ("creations_refused", 300),
            ("linked", 300),
            ("not_linked", 50),
            ("linked_with_more_signers", 30),
            ("updated", 600),
            ("updates_refused", 60),
            ("link_added", 100),
            ("link_removed", 50),
            ("parent_not_changed", 30),
            ("services_set", 20),
            ("services_refused", 10),
            ("tags_created", 20),
            ("tags_refused", 10),
            ("tags_edited", 20),
            ("tag_edits_refused", 5),
            ("pages_edited", 20),
            ("page_edits_refused", 5),
            ("built", 10),
            ("builds_refused", 10),
        ] {
            m.require(e, n);
        }
    }
    let rt = rt_paused();
    let n = if id == "V01" { m.n(150, 2500) } else { m.n(1200, 20000) };
    for i in 0..n {
        let kind = match (id, i % 10) {
            ("V01", 9) => "first",
            ("V01", 8) if i < 100 => "deep",
            ("V02", 8..=9) => "build",
            _ => "ops",
        };
        let Some(mut rng) = m.begin(format!("{kind}-{i}")) else {
            continue;
        };
        let r = drive(&rt, 100_000, async {
            match kind {
                "first" => first_case(&mut rng).await,
                "deep" => deep_case(&mut rng).await,
                "build" => build_case(&mut rng).await,
                _ => view_case(&mut rng, id).await,
            }
        });
        match r {
            None => m.violation("never-ends", json!({})),
            Some(Err((sig, v))) => m.violation(&sig, v),
            Some(Ok((evs, trace))) => {
                for (e, n) in evs {
                    m.count(e, n);
                }
                if i == 0 {
                    m.sample(json!({"steps": trace}));
                }
                m.nontrivial((kind, trace));
            }
        }
        m.check_panics("working with pages");
        if m.failed() {
            break;
        }
    }
    let _ = StdRng::seed_from_u64(0);
}

fn main() {
    main_with(|m, id| match id {
        "V01" | "V02" => v01(m, id),
        _ => panic!("unknown check {id}"),
    });
}
