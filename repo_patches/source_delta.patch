From 163c458bab28e5129a76569a4b4ad279a1e4a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 01/54] fix: settling linked brokers concurrently deadlocks

Waiting for the linked brokers in the main loop of the broker blocks it. If two
linked brokers are settled at the same time, both wait for the other one forever.
As remove_subsystem also settles, this stops the node.
---
 flarch/src/broker.rs | 62 ++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..8aa324f 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,18 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.start_settle(callers)?.recv().await;
+        Ok(())
+    }
+
+    // Asks the broker to settle, and returns a channel which gets a message, or is closed,
+    // when this is done.
+    fn start_settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -563,20 +569,28 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
                 let type_str = self.type_str();
+                let mut pending = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()) {
+                            Ok(rx) => pending.extend(rx),
+                            Err(e) => log::error!("{type_str}: While settling: {e:?}"),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                // Don't wait in the main loop: if one of the linked brokers is settling
+                // at the same time, both would wait for each other forever.
+                spawn_local(async move {
+                    for mut rx in pending {
+                        rx.recv().await;
+                    }
+                    reply
+                        .send(true)
+                        .err()
+                        .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                });
                 return true;
             }
             InternMessage::Dropped => {
@@ -887,10 +901,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
-            Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            Subsystem::Translator(tr) => tr.settle(callers),
+            _ => Ok(None),
         }
     }
 }
@@ -919,7 +936,9 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    /// Starts to settle the target, and returns a channel to wait for the end.
+    fn settle(&mut self, callers: Vec<BrokerID>)
+        -> anyhow::Result<Option<UnboundedReceiver<bool>>>;
 }
 
 #[target_send()]
@@ -982,11 +1001,14 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
+        if callers.contains(&self.broker.id) {
+            return Ok(None);
         }
-        Ok(())
+        self.broker.start_settle(callers).map(Some)
     }
 }
 
-- 
2.43.0


From b8b0271d326a51080d86cd8626f763d3ceabe2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 02/54] fix: parsing an ID panics on odd-length or non-ASCII
 strings

---
 flarch/src/nodeids.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..fc09669 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Need an even number of hexadecimal characters")]
+    NotHex,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -133,6 +135,9 @@ impl FromStr for U256 {
         if s.len() > 64 {
             return Err(ParseError::HexTooLong.into());
         }
+        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ParseError::NotHex.into());
+        }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
             .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
-- 
2.43.0


From 6fa89ce077aff2fa5b8c28c2cdf126cb68e56a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 03/54] fix: hash_domain_hashmap depends on the iteration order
 of the HashMap

---
 flarch/src/nodeids.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index fc09669..5c97b24 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -91,11 +91,16 @@ impl U256 {
         domain: &str,
         hm: &HashMap<K, V>,
     ) -> Self {
-        let mut parts = vec![];
+        let mut pairs = vec![];
         for (k, v) in hm {
-            parts.push(rmp_serde::to_vec(k).unwrap());
-            parts.push(rmp_serde::to_vec(v).unwrap());
+            pairs.push((
+                rmp_serde::to_vec(k).unwrap(),
+                rmp_serde::to_vec(v).unwrap(),
+            ));
         }
+        // The order of a HashMap changes from one instance to the next.
+        pairs.sort();
+        let parts: Vec<Vec<u8>> = pairs.into_iter().flat_map(|(k, v)| [k, v]).collect();
         let slices: Vec<&[u8]> = parts.iter().map(|e| e.as_slice()).collect();
         Self::hash_domain_parts(domain, &slices)
     }
-- 
2.43.0


From 88f9e4c395584020fbe5393bd513f9fb54f99b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 04/54] fix: DataStorageTemp fails when two clones are used at
 the same time

---
 flarch/src/data_storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flarch/src/data_storage.rs b/flarch/src/data_storage.rs
index dc6cc6f..d479539 100644
--- a/flarch/src/data_storage.rs
+++ b/flarch/src/data_storage.rs
@@ -71,7 +71,7 @@ impl DataStorage for DataStorageTemp {
     fn get(&self, key: &str) -> Result<String, StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         if let Some(kvs_entry) = kvs.get_mut(key) {
             Ok(kvs_entry.clone())
@@ -83,7 +83,7 @@ impl DataStorage for DataStorageTemp {
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         kvs.insert(key.to_string(), value.to_string());
         Ok(())
@@ -92,7 +92,7 @@ impl DataStorage for DataStorageTemp {
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         kvs.remove(key);
         Ok(())
-- 
2.43.0


From d0dbfe2682878c287fd0db55e0ecadc2d66924d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 05/54] fix: a crash or a full disk while storing loses the
 previous value

---
 flarch/src/data_storage/libc.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..4a174f9 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,6 +1,7 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
     path::PathBuf,
+    sync::atomic::{AtomicU64, Ordering},
 };
 
 use async_trait::async_trait;
@@ -42,6 +43,16 @@ impl DataStorageFile {
         });
         name
     }
+
+    // A name which is not used by any other storage or thread writing to this directory.
+    fn tmp_name(&self) -> PathBuf {
+        static COUNTER: AtomicU64 = AtomicU64::new(0);
+        self.dir.join(format!(
+            ".{}-{}.tmp",
+            std::process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        ))
+    }
 }
 
 use std::io::prelude::*;
@@ -62,12 +73,21 @@ impl DataStorage for DataStorageFile {
         })
     }
 
+    // Writes to a temporary file first, so that the previous value is only ever replaced by
+    // the complete new one, even if the process stops or the disk is full.
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
+        let tmp = self.tmp_name();
+        File::create(&tmp)
             .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
             .write_all(value.as_bytes())
-            .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
-        Ok(())
+            .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))
+            .and_then(|_| {
+                rename(&tmp, self.name(key))
+                    .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))
+            })
+            .inspect_err(|_| {
+                let _ = remove_file(&tmp);
+            })
     }
 
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
-- 
2.43.0


From 0e51a26da8bdade25b007907b00a18d7b7bdc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 06/54] fix: an interval starting in the past never fires

---
 flarch/src/tasks/libc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 8b5793f..fa408bb 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -47,7 +47,8 @@ impl Interval {
     /// dur.
     pub fn new(next_millis: i64, dur: Duration) -> Self {
         let next = Instant::now()
-            .checked_add(Duration::from_millis((next_millis - now()) as u64))
+            // A time in the past, even by one millisecond, fires immediately.
+            .checked_add(Duration::from_millis((next_millis - now()).max(0) as u64))
             .unwrap();
         Self {
             interval: time::interval_at(next, dur),
-- 
2.43.0


From a0be4dd5179508ca6586f0a9c09aefeddbb807ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 07/54] fix: a NodeInfo with an old version or an invalid
 public key panics

---
 flmodules/src/nodeconfig.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..d5b0595 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,13 +79,19 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            // An invalid public key, for example received from another node.
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
@@ -178,9 +184,18 @@ impl From<NodeInfoV1> for NodeInfoV2 {
 }
 
 // This is not used anymore, so it's empty.
-#[derive(Serialize, Deserialize, Clone)]
+#[derive(Serialize, Clone)]
 struct NodeInfoV1 {}
 
+// As it can also come from other nodes, refuse it before the conversion to the next version.
+impl<'de> serde::Deserialize<'de> for NodeInfoV1 {
+    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
+        Err(serde::de::Error::custom(
+            "Old configuration not supported anymore",
+        ))
+    }
+}
+
 /// NodeConfig is stored on the node itself and contains the private key.
 #[serde_as]
 #[derive(VersionedSerde, Debug, PartialEq)]
-- 
2.43.0


From c1fdd967e495ca47f0ca98e357f9a0387057cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 08/54] fix: verifying a signature of the wrong length panics

---
 flcrypto/src/signer_ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..6977f7e 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,8 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s = ed25519_dalek::Signature::from_slice(sig.bytes().as_ref())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?;
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From f9c3916647fb16665221b96bba4346ef8e0ecbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 09/54] fix: one invalid signature hides that enough others
 signed

---
 flcrypto/src/access.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..dd835d7 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -347,7 +347,11 @@ impl ConditionSignature {
             Condition::NofT(t, vec) => {
                 let mut correct = 0;
                 for cond in vec {
-                    self.verify_cond(cond, digest)?.then(|| correct += 1);
+                    // A wrong signature only counts as a missing one, as the other
+                    // conditions might be enough.
+                    self.verify_cond(cond, digest)
+                        .unwrap_or(false)
+                        .then(|| correct += 1);
                 }
                 correct >= *t
             }
-- 
2.43.0


From ef5e39b2bc6cbfcc404fe2a98a65044febc630fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 10/54] fix: Condition::equal_link ignores threshold and
 structure of NofT

---
 flcrypto/src/access.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index dd835d7..1dce1fb 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -208,8 +208,11 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(thr_link, condition_links) => {
+                matches!(self, Condition::NofT(thr, conditions)
+                if thr == thr_link
+                    && conditions.len() == condition_links.len()
+                    && conditions.iter().zip(condition_links).all(|(c, cl)| c.equal_link(cl)))
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From 3649b178bead7e573fc9751b608980d1346290e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 11/54] fix: Condition::to_link panics if a part of the
 condition is not available

---
 flcrypto/src/access.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1dce1fb..6aed2d8 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -230,7 +230,8 @@ impl Condition {
                     .map(|cond| cond.to_link())
                     .collect::<Vec<_>>(),
             ),
-            Condition::NotAvailable => todo!(),
+            // Nobody can fulfil a condition which isn't available.
+            Condition::NotAvailable => ConditionLink::Fail,
             Condition::Pass => ConditionLink::Pass,
             Condition::Fail => ConditionLink::Fail,
         }
-- 
2.43.0


From ca7605768ce598fd954cbc610f2d3fa8331fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 12/54] fix: Condition::can_sign panics with two signers and is
 wrong for NofT

---
 flcrypto/src/access.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 6aed2d8..b4b0ea9 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -248,23 +248,17 @@ impl Condition {
         }
     }
 
+    /// Returns true if the signatures of all vids together fulfil this condition.
     pub fn can_sign(&self, vids: &[&KeyPairID]) -> bool {
-        if vids.len() > 1 {
-            todo!("Check with more than one signer");
-        }
-        if let Some(&vid) = vids.first() {
-            match self {
-                Condition::Verifier(verifier) => &verifier.get_id() == vid,
-                Condition::Badge(_, badge) => badge.condition.can_sign(&[vid]),
-                Condition::NofT(nbr, conditions) => {
-                    conditions.iter().any(|c| c.can_sign(&[vid])) && nbr == &1
-                }
-                Condition::NotAvailable => false,
-                Condition::Pass => true,
-                Condition::Fail => false,
+        match self {
+            Condition::Verifier(verifier) => vids.contains(&&verifier.get_id()),
+            Condition::Badge(_, badge) => badge.condition.can_sign(vids),
+            Condition::NofT(nbr, conditions) => {
+                conditions.iter().filter(|c| c.can_sign(vids)).count() >= *nbr as usize
             }
-        } else {
-            self == &Condition::Pass
+            Condition::NotAvailable => false,
+            Condition::Pass => true,
+            Condition::Fail => false,
         }
     }
 
-- 
2.43.0


From 4757d2d9c4108aa1ac6a51347cab06ca48950e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 13/54] fix: resolving a badge which refers to itself never
 ends

---
 flcrypto/src/access.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index b4b0ea9..9f26910 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -131,8 +131,18 @@ impl<T: Serialize + Clone + AsRef<[u8]>> VersionSpec<T> {
 }
 
 impl ConditionLink {
-    #[async_recursion(?Send)]
     pub async fn to_condition<B, V>(&self, gb: &B, gv: &V) -> Condition
+    where
+        B: AsyncFn(VersionSpec<BadgeID>) -> Option<BadgeLink>,
+        V: AsyncFn(KeyPairID) -> Option<Verifier>,
+    {
+        self.to_condition_path(gb, gv, &[]).await
+    }
+
+    /// The path holds the badges leading to this link: a badge cannot be part of its own
+    /// condition.
+    #[async_recursion(?Send)]
+    async fn to_condition_path<B, V>(&self, gb: &B, gv: &V, path: &[BadgeID]) -> Condition
     where
         B: AsyncFn(VersionSpec<BadgeID>) -> Option<BadgeLink>,
         V: AsyncFn(KeyPairID) -> Option<Verifier>,
@@ -143,13 +153,17 @@ impl ConditionLink {
                 .map(|v| Condition::Verifier(v))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
+                if path.contains(&version.get_id()) {
+                    return Condition::NotAvailable;
+                }
+                let path = [path, &[version.get_id()]].concat();
                 if let Some(b) = gb(version.clone()).await {
                     Condition::Badge(
                         version.clone(),
                         Badge {
                             id: b.id,
                             version: b.version,
-                            condition: Box::new(b.condition.to_condition(gb, gv).await),
+                            condition: Box::new(b.condition.to_condition_path(gb, gv, &path).await),
                         },
                     )
                 } else {
@@ -159,7 +173,7 @@ impl ConditionLink {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(cond.to_condition(gb, gv).await)
+                    conds.push(cond.to_condition_path(gb, gv, path).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From c9f6ba9bc201446039168c2ba00f31c9e5ecdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 14/54] fix: storing a Flo never ends if the FloRealm alone is
 bigger than the space

---
 flmodules/src/dht_storage/core.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..3914ba7 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -245,9 +245,7 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        self.remove_overflow();
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -300,6 +298,13 @@ impl RealmStorage {
         }
     }
 
+    // Removes Flos until the size is respected, or until only the FloRealm is left.
+    fn remove_overflow(&mut self) {
+        while self.size > self.realm_config.max_space && self.flos.len() > 1 {
+            self.remove_furthest();
+        }
+    }
+
     fn remove_furthest(&mut self) {
         if let Some(furthest) = self
             .distances
-- 
2.43.0


From 3bc013b0ce8545a068ea38b6c5790c5a0e58d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 15/54] fix: IDs of cuckoos let a realm grow beyond its space

---
 flmodules/src/dht_storage/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 3914ba7..f0f57c0 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -187,6 +187,7 @@ impl RealmStorage {
                 self.size -= fs.size() as u64;
                 fs.cuckoos.push(cuckoo);
                 self.size += fs.size() as u64;
+                self.remove_overflow();
             }
         }
     }
-- 
2.43.0


From 4f26f244b76cb5e691c91b3dc69c5d1a42be5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 16/54] fix: updating a Flo loses its cuckoos

---
 flmodules/src/dht_storage/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index f0f57c0..127b06a 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -272,6 +272,7 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
+        let cuckoos = self.get_cuckoo_ids(&id).unwrap_or_default();
         self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
@@ -284,7 +285,8 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        df.cuckoos = cuckoos;
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
-- 
2.43.0


From b170136003ec883e4b59c5dc711797cd82808c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 17/54] fix: a realm can be created by a Flo with another ID
 than the realm's

---
 flmodules/src/dht_storage/intern.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..1416cfd 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -421,6 +421,9 @@ impl Messages {
         //     realm.version()
         // );
         let id = realm.flo().realm_id();
+        if *id != *realm.flo_id() {
+            return Err(CoreError::RealmNotAccepted.into());
+        }
         let dsc = RealmStorage::new(self.config.clone(), realm)?;
         self.realms.insert(id.clone(), dsc);
         // log::info!("Realm {}: {}", id, self.realms.get(&id).is_some());
-- 
2.43.0


From e046c37a8625ad5c8fc5473d5af4e587be4cf2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 18/54] fix: IDs of cuckoos are lost when the node restarts

---
 flmodules/src/dht_storage/core.rs   | 12 +++++++++---
 flmodules/src/dht_storage/intern.rs | 25 ++++++++++++++-----------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 127b06a..21a9c30 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -176,20 +176,26 @@ impl RealmStorage {
             .collect()
     }
 
-    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) {
+    /// Returns true if at least one of the cuckoos is new.
+    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) -> bool {
+        let mut modification = false;
         for cuckoo in cuckoos {
-            self.store_cuckoo_id(parent, cuckoo);
+            modification |= self.store_cuckoo_id(parent, cuckoo);
         }
+        modification
     }
-    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
+    /// Returns true if the cuckoo is new.
+    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) -> bool {
         if let Some(fs) = self.flos.get_mut(parent) {
             if !fs.cuckoos.contains(&cuckoo) {
                 self.size -= fs.size() as u64;
                 fs.cuckoos.push(cuckoo);
                 self.size += fs.size() as u64;
                 self.remove_overflow();
+                return true;
             }
         }
+        false
     }
 
     /// TODO: decide which IDs need to be stored.
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 1416cfd..906aae3 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -242,9 +242,7 @@ impl Messages {
                     });
             }
             MessageClosest::StoreCuckooID(gid) => {
-                self.realms
-                    .get_mut(&gid.realm_id())
-                    .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store_cuckoo_ids(gid.realm_id(), &fid, vec![gid.flo_id().clone()]);
             }
         }
         vec![]
@@ -255,9 +253,7 @@ impl Messages {
             MessageDest::FloValue(fc) => {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
-                self.realms
-                    .get_mut(&fc.0.realm_id())
-                    .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -332,11 +328,7 @@ impl Messages {
             MessageNeighbour::Flos(flo_cuckoos) => {
                 for (flo, cuckoos) in flo_cuckoos {
                     self.store_flo(flo.clone());
-                    self.realms.get_mut(&flo.realm_id()).map(|realm| {
-                        cuckoos
-                            .into_iter()
-                            .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
-                    });
+                    self.store_cuckoo_ids(&flo.realm_id(), &flo.flo_id(), cuckoos);
                 }
                 vec![]
             }
@@ -369,6 +361,17 @@ impl Messages {
         res
     }
 
+    fn store_cuckoo_ids(&mut self, realm_id: &RealmID, parent: &FloID, cuckoos: Vec<FloID>) {
+        if self
+            .realms
+            .get_mut(realm_id)
+            .map(|realm| realm.store_cuckoo_ids(parent, cuckoos))
+            .unwrap_or(false)
+        {
+            self.store();
+        }
+    }
+
     // Try really hard to store the flo.
     // Either its realm is already known, or it is a new realm.
     // When 'true' is returned, then the flo has been stored.
-- 
2.43.0


From 0492464e7e9686892844bdeec35b73eb7e2ca466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 19/54] fix: converting a badge which refers to itself never
 ends

---
 flmodules/src/dht_storage/broker.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..4168663 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -6,7 +6,7 @@ use flarch::{
     tasks::wait_ms,
 };
 use flcrypto::{
-    access::{Condition, ConditionLink},
+    access::{BadgeID, Condition, ConditionLink},
     signer::{SignerError, Verifier},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
@@ -212,8 +212,19 @@ impl DHTStorage {
         Ok(self.broker.emit_msg_in(DHTStorageIn::SyncFromNeighbors)?)
     }
 
-    #[async_recursion(?Send)]
     pub async fn convert(&mut self, cl: &ConditionLink, rid: &RealmID) -> Condition {
+        self.convert_path(cl, rid, &[]).await
+    }
+
+    // The path holds the badges leading to this link: a badge cannot be part of its own
+    // condition.
+    #[async_recursion(?Send)]
+    async fn convert_path(
+        &mut self,
+        cl: &ConditionLink,
+        rid: &RealmID,
+        path: &[BadgeID],
+    ) -> Condition {
         match cl {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
@@ -221,6 +232,10 @@ impl DHTStorage {
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
+                if path.contains(&version.get_id()) {
+                    return Condition::NotAvailable;
+                }
+                let path = [path, &[version.get_id()]].concat();
                 if let Ok(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
@@ -231,7 +246,7 @@ impl DHTStorage {
                         flcrypto::access::Badge {
                             id: bl.id,
                             version: bl.version,
-                            condition: Box::new(self.convert(&bl.condition, rid).await),
+                            condition: Box::new(self.convert_path(&bl.condition, rid, &path).await),
                         },
                     )
                 } else {
@@ -241,7 +256,7 @@ impl DHTStorage {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(self.convert(cond, rid).await)
+                    conds.push(self.convert_path(cond, rid, path).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From 8b2e771832e22d576952794c0784c93d40d2386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 20/54] Revert "fix: a realm can be created by a Flo with
 another ID than the realm's"

This reverts commit b170136003ec883e4b59c5dc711797cd82808c92.
---
 flmodules/src/dht_storage/intern.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 906aae3..ba8d2cb 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -424,9 +424,6 @@ impl Messages {
         //     realm.version()
         // );
         let id = realm.flo().realm_id();
-        if *id != *realm.flo_id() {
-            return Err(CoreError::RealmNotAccepted.into());
-        }
         let dsc = RealmStorage::new(self.config.clone(), realm)?;
         self.realms.insert(id.clone(), dsc);
         // log::info!("Realm {}: {}", id, self.realms.get(&id).is_some());
-- 
2.43.0


From 2601a74fa61c79ebd2f25e09b834e033ddae527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 21/54] fix: nodes in the root bucket stay active when they
 disconnect

---
 flmodules/src/dht_router/kademlia.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..1793f93 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -81,15 +81,7 @@ impl Kademlia {
     }
 
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
-            .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        self.remove_node(id);
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From a780e986f1e6e83d357e11b4361d857f3112042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 22/54] fix: an event too old to be stored is announced as new
 again and again

---
 flmodules/src/gossip_events/core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..76bf142 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -160,10 +160,13 @@ impl Events {
     }
 
     // Insert the message in the events and make sure the limits are kept.
+    // Returns false if the message is older than all the stored ones, and thus
+    // has been removed again.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
-- 
2.43.0


From b4f18f60d9f19359e0a73acd93e191f8f2fc7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:35 +0000
Subject: [PATCH 23/54] fix: which of several events of the same time are kept
 depends on their order of arrival

---
 flmodules/src/gossip_events/core.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index 76bf142..c86e2cb 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -144,6 +144,8 @@ impl Events {
 
     // Check if a message from the same node already exists. If it does,
     // keep only the most recent of the stored and incoming message.
+    // Messages created at the same time are ordered by their ID, so that all
+    // nodes keep the same one.
     fn insert_unique(&mut self, msg: Event) -> bool {
         if let Some((id, ev)) = self
             .events
@@ -151,7 +153,7 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            if (ev.created, id) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -198,11 +200,10 @@ impl Events {
         let ids: Vec<U256> = self
             .events
             .iter()
-            .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            .map(|(k, v)| (v.created, *k))
+            .sorted_by(|a, b| b.cmp(a))
             .skip(self.config.max_events)
-            .map(|(k, _)| k)
-            .cloned()
+            .map(|(_, k)| k)
             .collect();
         for id in ids {
             self.events.remove(&id);
-- 
2.43.0


From c037508d901131ad87097f0ce6bf7f66c8ba0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 24/54] fix: nodes which never answer block new connections
 forever

---
 flmodules/src/random_connections/intern.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..655d8ac 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,9 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        // The network doesn't report connections which couldn't be set up.
+        let failed = self.storage.connecting.oldest_ticks(self.cfg.connecting_timeout);
+        self.storage.failure(&failed);
 
         concat([
             self.new_connection(),
-- 
2.43.0


From 83242cb91f5a2001e4108bc2ab8d1511b2f99346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 25/54] fix: remove_oldest_ticks removes the first instead of
 the oldest nodes

---
 flmodules/src/random_connections/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 4a664d0..963cb17 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -118,7 +118,7 @@ impl Nodes {
     // Removes nodes that are as old or older than age and returns the removed nodes.
     pub fn remove_oldest_ticks(&mut self, ticks: u32) -> NodeIDs {
         let nodes = self.oldest_ticks(ticks);
-        self.0.splice(..nodes.0.len(), vec![]);
+        self.remove(&nodes);
         nodes
     }
 
-- 
2.43.0


From 8f64ccf693f4d7690982dbc861da4a712eda8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:54 +0000
Subject: [PATCH 26/54] fix: the signalling server removes idle nodes too
 early, and crashes with a ttl of 0

---
 flmodules/src/network/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index 001d177..ecfdc38 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -182,10 +182,11 @@ impl SignalServer {
     fn msg_in_timer(&mut self) {
         let mut to_remove = Vec::new();
         for (index, ttl) in self.ttl.iter_mut() {
-            *ttl -= 1;
             if *ttl == 0 {
                 log::info!("Removing idle node {index}");
                 to_remove.push(*index);
+            } else {
+                *ttl -= 1;
             }
         }
         for id in to_remove {
-- 
2.43.0


From 13551a824c16ef7daf240332a64494f7015a8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 27/54] fix: a remote node can crash the network module with a
 signalling message

---
 flmodules/src/network/intern.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..8c19a0b 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -186,10 +186,8 @@ impl Intern {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                    log::warn!("Signalling over WebRTC is not implemented - dropping {net_msg:?}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From 77e3284045cb0e4e3a4fcbb79549c15d34cbb41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 28/54] fix: the network module crashes if the signalling
 server has another version

---
 flmodules/src/network/intern.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 8c19a0b..3440241 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -1,7 +1,6 @@
 //! Handles all the incoming messages and produces messages for the modules
 //! connected to [Network].
 
-use core::panic;
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display};
 use tokio::sync::watch;
@@ -94,9 +93,10 @@ impl Intern {
         match msg_node {
             WSSignalMessageToNode::Challenge(version, challenge) => {
                 if version != SIGNAL_VERSION {
-                    panic!(
+                    return vec![NetworkOut::Error(format!(
                         "Wrong signal-server version: got {version}, expected {SIGNAL_VERSION}."
-                    );
+                    ))
+                    .into()];
                 }
                 let ma = MessageAnnounce {
                     version,
-- 
2.43.0


From 50258a3e1686a6f84018bfc8ed6d7a0bb5e06446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 29/54] fix: a late ICE candidate marks a working connection as
 disconnected

---
 flmodules/src/network/intern.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 3440241..98e86c5 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -10,7 +10,7 @@ use flarch::{
     nodeids::{NodeID, U256},
     platform_async_trait,
     web_rtc::{
-        messages::PeerInfo,
+        messages::{PeerInfo, PeerMessage},
         node_connection::{Direction, NCInput, NCOutput},
         websocket::{WSClientIn, WSClientOut},
         WebRTCConnIn, WebRTCConnOut,
@@ -124,11 +124,14 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                if self.connected_only(&remote_node, &dir) {
-                    out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                    self.send_connections();
+                // ICE candidates can still arrive once the connection is up.
+                if !matches!(pi.message, PeerMessage::IceCandidate(_)) {
+                    if self.connected_only(&remote_node, &dir) {
+                        out.push(NetworkOut::Disconnected(remote_node.clone()).into());
+                        self.send_connections();
+                    }
+                    self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 }
-                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
                     NCInput::Setup(dir, pi.message),
-- 
2.43.0


From 7a71aa0ac75fb116cb5de2e41484558663cf7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 30/54] fix: the list of connections of the network is not
 updated

---
 flmodules/src/network/intern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 98e86c5..5472e08 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -128,9 +128,9 @@ impl Intern {
                 if !matches!(pi.message, PeerMessage::IceCandidate(_)) {
                     if self.connected_only(&remote_node, &dir) {
                         out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                        self.send_connections();
                     }
                     self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
+                    self.send_connections();
                 }
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
@@ -205,6 +205,7 @@ impl Intern {
             NCOutput::Connected(dir) => {
                 let new_connection = !self.connected(&id);
                 self.connection_state_set(id, &dir, ConnectionState::Connected);
+                self.send_connections();
                 if new_connection {
                     vec![NetworkOut::Connected(id).into()]
                 } else {
@@ -214,6 +215,7 @@ impl Intern {
             NCOutput::Disconnected(dir) => {
                 let new_disconnection = self.connected_only(&id, &dir);
                 self.connection_state_set(id, &dir, ConnectionState::None);
+                self.send_connections();
                 if new_disconnection {
                     vec![NetworkOut::Disconnected(id).into()]
                 } else {
-- 
2.43.0


From 455777014c262affb6fbacad001829aaf976011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 31/54] fix: don't count the realm's own Flo as space which can
 be freed

When deciding whether a Flo replaces farther ones, the size of the realm's
Flo was included, although it is never removed. Flos got evicted for a new
Flo which could not be kept anyway.
---
 flmodules/src/dht_storage/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 21a9c30..44ac64f 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -270,6 +270,7 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    .filter(|&id| **id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
-- 
2.43.0


From 7787553b6a4a8a18f83ccb043c406479b28e1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 32/54] fix: store a cuckoo's link even if the cuckoo itself is
 not new

A Flo which arrives again after its parent got known is linked to the parent,
but upsert_flo reported no modification, so the link was neither stored nor
shown in the statistics.
---
 flmodules/src/dht_storage/core.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 44ac64f..a08157a 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -226,9 +226,11 @@ impl RealmStorage {
         }
 
         let flo_id = flo.flo_id();
-        flo.flo_config()
+        let is_new_cuckoo = flo
+            .flo_config()
             .cuckoo_parent()
-            .map(|pid| self.store_cuckoo_id(pid, flo_id.clone()));
+            .map(|pid| self.store_cuckoo_id(pid, flo_id.clone()))
+            .unwrap_or(false);
 
         let mut is_new_flo = true;
         if let Some(old) = self.flos.get(&flo.flo_id()) {
@@ -262,7 +264,7 @@ impl RealmStorage {
                 self.realm_config.max_space
             );
         }
-        is_new_flo
+        is_new_flo || is_new_cuckoo
     }
 
     fn size_at_depth(&self, distance: usize) -> u64 {
-- 
2.43.0


From f76fdfd63039f85eca44975c2f4f1410c6857e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 33/54] fix: texts with control characters are lost or changed

The packets of a connection are written as JSON, but were read as YAML, which
refuses or converts some characters which JSON leaves as they are.
---
 flarch/src/web_rtc/node_connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..ffdd872 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -367,7 +367,7 @@ impl PacketCollector {
     }
 
     fn new_packet_str(&mut self, s: &str) -> Option<String> {
-        self.new_packet(serde_yaml::from_str(s).ok()?)
+        self.new_packet(serde_json::from_str(s).ok()?)
     }
 
     fn get_params(p: &Packet) -> Option<(U256, usize, usize)> {
-- 
2.43.0


From 261582ec9e85b24a9d5e4e5d3004d7c1776c6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 34/54] fix: packets are bigger than what a data channel can
 send

The texts were cut after a number of characters, which in the JSON of the packet
can take up to six times as many bytes: more than the 64kB of a data channel.
---
 flarch/src/web_rtc/node_connection.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index ffdd872..8f6ea3a 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -302,7 +302,17 @@ impl SubsystemHandler<NCInput, NCOutput> for NodeConnection {
 
 impl Packet {
     fn split_msg(msg: String) -> Vec<String> {
-        if msg.len() <= WEBRTC_MAX_SIZE {
+        let mut chunks = vec![String::new()];
+        let mut size = 0;
+        for c in msg.chars() {
+            size += Self::json_len(c);
+            if size > WEBRTC_MAX_SIZE {
+                chunks.push(String::new());
+                size = Self::json_len(c);
+            }
+            chunks.last_mut().unwrap().push(c);
+        }
+        if chunks.len() == 1 {
             return vec![serde_json::to_string(&Self {
                 id: None,
                 part: None,
@@ -311,12 +321,6 @@ impl Packet {
             })
             .unwrap()];
         }
-        let chunks = msg
-            .chars()
-            .collect::<Vec<_>>()
-            .chunks(WEBRTC_MAX_SIZE as usize)
-            .map(|chunk| chunk.iter().collect::<String>())
-            .collect::<Vec<_>>();
         let id = U256::rnd();
         let total = Some(chunks.len());
         chunks
@@ -333,6 +337,15 @@ impl Packet {
             })
             .collect::<Vec<_>>()
     }
+
+    // How many bytes the character takes in the JSON of the packet.
+    fn json_len(c: char) -> usize {
+        match c {
+            '"' | '\\' | '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' => 2,
+            c if c < ' ' => 6,
+            c => c.len_utf8(),
+        }
+    }
 }
 
 #[derive(Default)]
-- 
2.43.0


From 0aa30175a3c5f5592f4fa64005231c30441803b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 35/54] fix: a remote node can crash the connection with a
 packet

The total number of parts, which comes from the remote node, was used to allocate
the list of the parts. A text of 0 parts was returned as an empty text.
---
 flarch/src/web_rtc/node_connection.rs | 37 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8f6ea3a..08dd7e2 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -11,7 +11,7 @@
 //! _If you come here, I hope you're not trying to debug something that doesn't work.
 //! This code is quite obscure, and should be rewritten for the 5th time or so._
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{self, Display},
 };
 
@@ -350,7 +350,12 @@ impl Packet {
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, PartialText>,
+}
+
+struct PartialText {
+    total: usize,
+    parts: BTreeMap<usize, String>,
 }
 
 impl PacketCollector {
@@ -359,22 +364,24 @@ impl PacketCollector {
             None => return Some(p.data),
             Some((id, total, part)) => {
                 // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
+                if part >= total {
+                    return None;
+                }
+                let text = self.packets.entry(id).or_insert_with(|| PartialText {
+                    total,
+                    parts: BTreeMap::new(),
+                });
+                if part < text.total {
+                    text.parts.insert(part, p.data);
                 }
 
-                // Check if one of the entires is full, and return it.
+                // Check if the text is complete, and return it.
+                if text.parts.len() < text.total {
+                    return None;
+                }
                 self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+                    .remove(&id)
+                    .map(|text| text.parts.into_values().collect())
             }
         }
     }
-- 
2.43.0


From cc5dad1d5a9f4ebb2077a18898dce393cfe95fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 36/54] fix: the websocket server sends messages to the wrong
 clients

The connections were stored in a vector which was indexed by the ID of the
connection, although closed connections are removed from it, and although
connections which fail also have an ID. Connections closed by the clients were
never removed. Also announce a connection before its first message.
---
 flarch/src/web_rtc/libc/web_socket_server.rs | 51 +++++++++++---------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..eab4ead 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,7 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -19,33 +19,32 @@ use crate::{
     web_rtc::websocket::BrokerWSServer,
 };
 
+type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Connections,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
                         let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
-                            }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
+                        let connections_cl2 = Arc::clone(&connections_cl);
+                        if let Err(e) =
+                            WSConnection::start(stream, broker_cl2, connections_cl2, connection_id)
+                                .await
+                        {
+                            log::error!("Error while getting connection: {:?}", e);
                         }
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
@@ -72,19 +71,19 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             match msg {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
                             conn.close();
-                            connections.remove(id);
+                            connections.remove(&id);
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         conn.close();
-                        connections.remove(id);
+                        connections.remove(&id);
                     }
                 }
                 WSServerIn::Stop => {
@@ -104,27 +103,32 @@ pub struct WSConnection {
 }
 
 impl WSConnection {
-    async fn new(
+    async fn start(
         stream: TcpStream,
-        broker: BrokerWSServer,
+        mut broker: BrokerWSServer,
+        connections: Connections,
         id: usize,
-    ) -> anyhow::Result<WSConnection> {
+    ) -> anyhow::Result<()> {
         let websocket = accept_async(stream)
             .await
             .map_err(|e| WSError::Underlying(e.to_string()))?;
         let (wr, rd) = websocket.split();
         let (tx, rx) = oneshot::channel();
-        let uwsc = WSConnection {
+        let conn = WSConnection {
             websocket: wr,
             tx: Some(tx),
         };
 
-        WSConnection::loop_read(broker, rd, rx, id).await;
-        Ok(uwsc)
+        log::trace!("Got new connection");
+        connections.lock().await.insert(id, conn);
+        broker.emit_msg_out(WSServerOut::NewConnection(id))?;
+        WSConnection::loop_read(broker, connections, rd, rx, id).await;
+        Ok(())
     }
 
     async fn loop_read(
         mut broker: BrokerWSServer,
+        connections: Connections,
         mut ws: SplitStream<WebSocketStream<TcpStream>>,
         mut rx: oneshot::Receiver<bool>,
         id: usize,
@@ -162,6 +166,7 @@ impl WSConnection {
                                     out,
                                     WSServerOut::Disconnection(_)
                                 ) {
+                                    connections.lock().await.remove(&id);
                                     return;
                                 }
                             }
-- 
2.43.0


From c455e7908c27cff4e4c34d2942c7c71dbf0e3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 37/54] fix: one client can block the websocket server for all
 others

A client which doesn't send its handshake kept all the others from connecting, and
a client which doesn't read its messages kept all the others from getting theirs.
---
 flarch/src/web_rtc/libc/web_socket_server.rs | 66 ++++++++++++++------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index eab4ead..a2771fd 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,12 +4,16 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::{collections::HashMap, sync::Arc};
+use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
-    sync::oneshot,
+    sync::{
+        mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
+        oneshot,
+    },
     task::JoinHandle,
+    time::timeout,
 };
 use tokio_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
 
@@ -19,6 +23,9 @@ use crate::{
     web_rtc::websocket::BrokerWSServer,
 };
 
+/// How long a client can take for the handshake, or for receiving a message.
+const CLIENT_TIMEOUT: Duration = Duration::from_secs(10);
+
 type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
 
 pub struct WebSocketServer {
@@ -40,12 +47,18 @@ impl WebSocketServer {
                     Ok((stream, _)) => {
                         let broker_cl2 = broker_cl.clone();
                         let connections_cl2 = Arc::clone(&connections_cl);
-                        if let Err(e) =
-                            WSConnection::start(stream, broker_cl2, connections_cl2, connection_id)
-                                .await
-                        {
-                            log::error!("Error while getting connection: {:?}", e);
-                        }
+                        tokio::spawn(async move {
+                            if let Err(e) = WSConnection::start(
+                                stream,
+                                broker_cl2,
+                                connections_cl2,
+                                connection_id,
+                            )
+                            .await
+                            {
+                                log::error!("Error while getting connection: {:?}", e);
+                            }
+                        });
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
@@ -72,7 +85,7 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
                     if let Some(conn) = connections.get_mut(&id) {
-                        if let Err(e) = conn.send(msg).await {
+                        if let Err(e) = conn.messages.send(msg) {
                             log::error!("Error while sending: {e}");
                             conn.close();
                             connections.remove(&id);
@@ -98,7 +111,7 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
 }
 
 pub struct WSConnection {
-    websocket: SplitSink<WebSocketStream<TcpStream>, Message>,
+    messages: UnboundedSender<String>,
     tx: Option<oneshot::Sender<bool>>,
 }
 
@@ -109,19 +122,21 @@ impl WSConnection {
         connections: Connections,
         id: usize,
     ) -> anyhow::Result<()> {
-        let websocket = accept_async(stream)
-            .await
+        let websocket = timeout(CLIENT_TIMEOUT, accept_async(stream))
+            .await?
             .map_err(|e| WSError::Underlying(e.to_string()))?;
         let (wr, rd) = websocket.split();
         let (tx, rx) = oneshot::channel();
+        let (messages, messages_rx) = unbounded_channel();
         let conn = WSConnection {
-            websocket: wr,
+            messages,
             tx: Some(tx),
         };
 
         log::trace!("Got new connection");
         connections.lock().await.insert(id, conn);
         broker.emit_msg_out(WSServerOut::NewConnection(id))?;
+        WSConnection::loop_write(Arc::clone(&connections), wr, messages_rx, id);
         WSConnection::loop_read(broker, connections, rd, rx, id).await;
         Ok(())
     }
@@ -176,12 +191,25 @@ impl WSConnection {
         });
     }
 
-    async fn send(&mut self, msg: String) -> anyhow::Result<()> {
-        Ok(self
-            .websocket
-            .send(Message::Text(msg.into()))
-            .await
-            .map_err(|e| WSError::Underlying(e.to_string()))?)
+    fn loop_write(
+        connections: Connections,
+        mut ws: SplitSink<WebSocketStream<TcpStream>, Message>,
+        mut messages: UnboundedReceiver<String>,
+        id: usize,
+    ) {
+        tokio::spawn(async move {
+            while let Some(msg) = messages.recv().await {
+                match timeout(CLIENT_TIMEOUT, ws.send(Message::Text(msg.into()))).await {
+                    Ok(Ok(())) => {}
+                    e => {
+                        log::error!("Error while sending: {e:?}");
+                        // Dropping the connection also ends its loop_read.
+                        connections.lock().await.remove(&id);
+                        return;
+                    }
+                }
+            }
+        });
     }
 
     fn close(&mut self) {
-- 
2.43.0


From 08ff13e6b3a919fae44a4b20b9cb5b9bdc7621c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 38/54] fix: a stopped websocket server keeps its connections

After WSServerOut::Stopped there were still messages sent to and received from
the clients.
---
 flarch/src/web_rtc/libc/web_socket_server.rs | 29 +++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index a2771fd..5e419a9 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -26,7 +26,8 @@ use crate::{
 /// How long a client can take for the handshake, or for receiving a message.
 const CLIENT_TIMEOUT: Duration = Duration::from_secs(10);
 
-type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+// None once the server is stopped.
+type Connections = Arc<Mutex<Option<HashMap<usize, WSConnection>>>>;
 
 pub struct WebSocketServer {
     connections: Connections,
@@ -36,7 +37,7 @@ pub struct WebSocketServer {
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(HashMap::new()));
+        let connections = Arc::new(Mutex::new(Some(HashMap::new())));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let broker_cl = broker.clone();
@@ -81,9 +82,12 @@ impl WebSocketServer {
 impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
     async fn messages(&mut self, from_broker: Vec<WSServerIn>) -> Vec<WSServerOut> {
         for msg in from_broker {
+            let mut guard = self.connections.lock().await;
+            let Some(connections) = guard.as_mut() else {
+                return vec![];
+            };
             match msg {
                 WSServerIn::Message(id, msg) => {
-                    let mut connections = self.connections.lock().await;
                     if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.messages.send(msg) {
                             log::error!("Error while sending: {e}");
@@ -93,7 +97,6 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
                     }
                 }
                 WSServerIn::Close(id) => {
-                    let mut connections = self.connections.lock().await;
                     if let Some(conn) = connections.get_mut(&id) {
                         conn.close();
                         connections.remove(&id);
@@ -102,6 +105,8 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
                     self.conn_thread.abort();
+                    connections.values_mut().for_each(|conn| conn.close());
+                    *guard = None;
                     return vec![WSServerOut::Stopped];
                 }
             }
@@ -134,7 +139,10 @@ impl WSConnection {
         };
 
         log::trace!("Got new connection");
-        connections.lock().await.insert(id, conn);
+        match connections.lock().await.as_mut() {
+            Some(connections) => connections.insert(id, conn),
+            None => return Ok(()),
+        };
         broker.emit_msg_out(WSServerOut::NewConnection(id))?;
         WSConnection::loop_write(Arc::clone(&connections), wr, messages_rx, id);
         WSConnection::loop_read(broker, connections, rd, rx, id).await;
@@ -151,6 +159,7 @@ impl WSConnection {
         tokio::spawn(async move {
             loop {
                 select! {
+                    biased;
                     _ = (&mut rx) => {
                         broker
                         .emit_msg_out(WSServerOut::Disconnection(id))
@@ -181,7 +190,7 @@ impl WSConnection {
                                     out,
                                     WSServerOut::Disconnection(_)
                                 ) {
-                                    connections.lock().await.remove(&id);
+                                    Self::remove(&connections, id).await;
                                     return;
                                 }
                             }
@@ -191,6 +200,12 @@ impl WSConnection {
         });
     }
 
+    async fn remove(connections: &Connections, id: usize) {
+        if let Some(connections) = connections.lock().await.as_mut() {
+            connections.remove(&id);
+        }
+    }
+
     fn loop_write(
         connections: Connections,
         mut ws: SplitSink<WebSocketStream<TcpStream>, Message>,
@@ -204,7 +219,7 @@ impl WSConnection {
                     e => {
                         log::error!("Error while sending: {e:?}");
                         // Dropping the connection also ends its loop_read.
-                        connections.lock().await.remove(&id);
+                        Self::remove(&connections, id).await;
                         return;
                     }
                 }
-- 
2.43.0


From 542e793ea4addb74a1acf4339c691471ab2ec821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 39/54] fix: the websocket client doesn't survive the end of
 its connection

If the server closes the connection, the client used all of the CPU instead of
reconnecting. If the connection is broken, sending a message panics, and closing
the old connection keeps it from reconnecting. After a disconnection, nothing
reads from the connection anymore, so that it's not opened again.
---
 flarch/src/web_rtc/libc/web_socket_client.rs | 80 +++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..fbb2018 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -1,17 +1,18 @@
 use async_trait::async_trait;
 use futures::stream::SplitStream;
-use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
-use std::pin::Pin;
-use tokio::net::TcpStream;
+use futures::{stream::SplitSink, SinkExt, StreamExt};
+use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
-use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError};
+use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 
 pub struct WebSocketClient {
     url: String,
     write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
+    // The task reading from the current connection.
+    listener: Option<JoinHandle<()>>,
     broker: BrokerWSClient,
 }
 
@@ -20,6 +21,7 @@ impl WebSocketClient {
         let wsb = WebSocketClient {
             url: url.to_string(),
             write: None,
+            listener: None,
             broker: Broker::new(),
         };
         let mut broker = wsb.broker.clone();
@@ -30,36 +32,47 @@ impl WebSocketClient {
 
     fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
         let mut broker_cl = self.broker.clone();
-        tokio::spawn(async move {
+        self.listener = Some(tokio::spawn(async move {
             wait_ms(1000).await;
             loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
+                match read.next().await {
+                    Some(Ok(msg)) if !msg.is_close() => {
+                        if msg.is_text() {
                             broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
-                            return;
+                                .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                                .expect("Failed to emit message");
                         }
                     }
+                    end => {
+                        log::warn!("Closing connection because of {:?}", end);
+                        log::warn!("Trying to reconnect");
+                        broker_cl
+                            .emit_msg_in(WSClientIn::Connect)
+                            .expect("tried to reconnect");
+                        return;
+                    }
                 }
             }
-        });
+        }));
     }
 
-    async fn connect_ws(&mut self) -> anyhow::Result<()> {
+    // Closes the connection, if there is one, and makes sure that it doesn't reconnect.
+    async fn close(&mut self) -> bool {
+        if let Some(listener) = self.listener.take() {
+            listener.abort();
+        }
         if let Some(mut write) = self.write.take() {
+            if let Err(e) = write.close().await {
+                log::debug!("While closing the connection: {e}");
+            }
+            return true;
+        }
+        false
+    }
+
+    async fn connect_ws(&mut self) -> anyhow::Result<()> {
+        if self.close().await {
             log::debug!("Reconnecting to websocket at {}", self.url);
-            write.close().await?;
         } else {
             log::trace!("Connecting to websocket at {}", self.url);
         }
@@ -78,16 +91,13 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
         for msg in msgs {
             match msg {
                 WSClientIn::Message(msg) => {
-                    if let Some(mut write) = self.write.as_mut() {
-                        Pin::new(&mut write)
-                            .start_send(tungstenite::Message::text(msg))
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("Error sending message");
-                        Pin::new(&mut write)
-                            .flush()
-                            .await
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("msg flush error");
+                    if let Some(write) = self.write.as_mut() {
+                        if let Err(e) = write.send(tungstenite::Message::text(msg)).await {
+                            log::warn!("Trying to reconnect because of error: {e}");
+                            if let Err(e) = self.connect_ws().await {
+                                log::error!("Couldn't connect: {e}");
+                            }
+                        }
                     } else {
                         log::warn!("Tried to write a message to a closed connection");
                         if let Err(e) = self.connect_ws().await {
@@ -96,9 +106,7 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                     }
                 }
                 WSClientIn::Disconnect => {
-                    if let Some(mut write) = self.write.take() {
-                        write.close().await.unwrap();
-                    } else {
+                    if !self.close().await {
                         log::warn!("Trying to disconnect a disconnected connection");
                     }
                     return vec![WSClientOut::Disconnect];
-- 
2.43.0


From 9ff67ac5a0e1304b95ac4e6ccb50d2fa88a83dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 40/54] fix: the websocket client sends messages after it was
 disconnected

The documentation says that no further messages are sent.
---
 flarch/src/web_rtc/libc/web_socket_client.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index fbb2018..47e57b9 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -11,6 +11,8 @@ use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 pub struct WebSocketClient {
     url: String,
     write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
+    // If the user asked to disconnect.
+    disconnected: bool,
     // The task reading from the current connection.
     listener: Option<JoinHandle<()>>,
     broker: BrokerWSClient,
@@ -21,6 +23,7 @@ impl WebSocketClient {
         let wsb = WebSocketClient {
             url: url.to_string(),
             write: None,
+            disconnected: false,
             listener: None,
             broker: Broker::new(),
         };
@@ -98,6 +101,8 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                                 log::error!("Couldn't connect: {e}");
                             }
                         }
+                    } else if self.disconnected {
+                        log::warn!("Dropping a message after the disconnection");
                     } else {
                         log::warn!("Tried to write a message to a closed connection");
                         if let Err(e) = self.connect_ws().await {
@@ -106,12 +111,14 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                     }
                 }
                 WSClientIn::Disconnect => {
+                    self.disconnected = true;
                     if !self.close().await {
                         log::warn!("Trying to disconnect a disconnected connection");
                     }
                     return vec![WSClientOut::Disconnect];
                 }
                 WSClientIn::Connect => {
+                    self.disconnected = false;
                     if let Err(e) = self.connect_ws().await {
                         log::error!("Couldn't connect to {}: {e}", self.url);
                     }
-- 
2.43.0


From 1f2ffef2a3bf314268c3faa9ef5ad25c2c30a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 41/54] fix: answer with header values which are not ASCII in
 the web proxy

---
 flmodules/src/web_proxy/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..2e167be 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 66fcf1f16155b97e9fab9c8d6c7e330d0294cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 42/54] fix: keep the order of the body in responses of the web
 proxy

---
 flmodules/src/web_proxy/core.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..3550bf7 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,7 +68,16 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            // A single task per request keeps the order of the body.
+            let (queue_tx, mut queue_rx) = unbounded_channel();
+            spawn_local(async move {
+                while let Some(body) = queue_rx.recv().await {
+                    if tx.send(body).await.is_err() {
+                        return;
+                    }
+                }
+            });
+            self.requests.insert(rnd, (node, queue_tx));
             return Some(node);
         }
         None
@@ -83,8 +92,10 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        log::debug!("Response of nonce {nonce} is not read anymore");
+                        self.requests.remove(&nonce);
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
-- 
2.43.0


From 2b64a4cd681b602bcdfe875702abea816a2ab3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 43/54] fix: end the requests of the web proxy when they fail

---
 flmodules/src/web_proxy/core.rs   | 3 ++-
 flmodules/src/web_proxy/intern.rs | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 3550bf7..ca20927 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -101,7 +101,8 @@ impl WebProxyCore {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..3a19477 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -148,13 +148,14 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let msg = match chunk {
+                                Ok(body) => ResponseMessage::Body(body),
+                                Err(e) => ResponseMessage::Error(e.to_string()),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
                         }
-- 
2.43.0


From 2de8d08f569545f8bd458e3ed2af7258a17b94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 44/54] fix: listen to the response before asking the web proxy

---
 flmodules/src/web_proxy/broker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/web_proxy/broker.rs b/flmodules/src/web_proxy/broker.rs
index 2cf37fe..b519b20 100644
--- a/flmodules/src/web_proxy/broker.rs
+++ b/flmodules/src/web_proxy/broker.rs
@@ -93,9 +93,9 @@ impl WebProxy {
         log::debug!("Getting {url}");
         let our_rnd = U256::rnd();
         let (tx, rx) = channel(128);
+        let (mut tap, id) = self.web_proxy.get_tap_out().await?;
         self.web_proxy
             .emit_msg_in(WebProxyIn::RequestGet(our_rnd, url.to_string(), tx))?;
-        let (mut tap, id) = self.web_proxy.get_tap_out().await?;
         Ok(timeout(Duration::from_secs(5), async move {
             while let Some(msg) = tap.recv().await {
                 let WebProxyOut::ResponseGet(proxy, rnd, header) = msg;
-- 
2.43.0


From 6c50c70125f8371166406775bc903f0d2d0f5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 45/54] fix: reads after store_flo could overtake it and miss
 the new value

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 4168663..035018c 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -135,7 +135,10 @@ impl DHTStorage {
     }
 
     pub fn store_flo(&mut self, flo: Flo) -> anyhow::Result<()> {
-        Ok(self.broker.emit_msg_in(DHTStorageIn::StoreFlo(flo))?)
+        // Goes the same way as the requests, so that they don't overtake it.
+        Ok(self
+            .intern
+            .emit_msg_in(InternIn::Storage(DHTStorageIn::StoreFlo(flo)))?)
     }
 
     pub fn propagate(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From d20bc91f70ffddf546587daf38fd95fc7a1a70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 46/54] fix: links of a parent page were not updated when not
 all signers belong to it

---
 flmodules/src/dht_storage/realm_view.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..1d10fad 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -164,10 +164,11 @@ impl RealmView {
                     log::warn!("Cannot update parent with this signer");
                 }
             } else {
+                let parent_signers = Self::condition_signers(&cond, signers);
                 let parent_update = parent_page.edit_data_signers(
                     cond,
                     |page| page.add_child(fp.blob_id()),
-                    signers,
+                    &parent_signers,
                 )?;
                 self.store_page(parent_update)?;
             }
@@ -363,7 +364,8 @@ impl RealmView {
                     .convert(parent.cond(), &parent.realm_id())
                     .await;
                 if cond.can_signers(signers) {
-                    match parent.edit_data_signers(cond, &mut edit, signers) {
+                    let parent_signers = Self::condition_signers(&cond, signers);
+                    match parent.edit_data_signers(cond, &mut edit, &parent_signers) {
                         Ok(new_parent) => {
                             self.store_page(new_parent.clone())
                                 .expect("Storing new parent");
@@ -375,6 +377,16 @@ impl RealmView {
         }
     }
 
+    /// Only the signers which are part of the condition, as all the others are refused when
+    /// signing.
+    fn condition_signers<'a>(cond: &Condition, signers: &[&'a Signer]) -> Vec<&'a Signer> {
+        signers
+            .iter()
+            .filter(|s| cond.has_verifier(&s.get_id()))
+            .cloned()
+            .collect()
+    }
+
     pub fn store_page(&mut self, page: FloBlobPage) -> anyhow::Result<()> {
         self.dht_storage.store_flo(page.clone().into())?;
         self.pages.storage.insert(page.blob_id(), page);
-- 
2.43.0


From 06da90beb5d3dec5f17be812abc68c719986a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 47/54] fix: a RealmView showed pages, tags and services which
 the storage drops

---
 flmodules/src/dht_storage/realm_view.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 1d10fad..68072a3 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -170,7 +170,9 @@ impl RealmView {
                     |page| page.add_child(fp.blob_id()),
                     &parent_signers,
                 )?;
-                self.store_page(parent_update)?;
+                if let Err(e) = self.store_page(parent_update) {
+                    log::warn!("Couldn't update parent: {e:?}");
+                }
             }
         } else if parent.is_some() {
             log::warn!("Couldn't get parent page to update 'children'");
@@ -227,9 +229,11 @@ impl RealmView {
             .dht_storage
             .convert(self.realm.cond(), &self.realm.realm_id())
             .await;
-        self.realm =
+        let realm =
             self.realm
                 .edit_data_signers(cond, |r| r.set_service(name, (*id).into()), signers)?;
+        realm.verify()?;
+        self.realm = realm;
         Ok(self.dht_storage.store_flo(self.realm.clone().into())?)
     }
 
@@ -367,8 +371,9 @@ impl RealmView {
                     let parent_signers = Self::condition_signers(&cond, signers);
                     match parent.edit_data_signers(cond, &mut edit, &parent_signers) {
                         Ok(new_parent) => {
-                            self.store_page(new_parent.clone())
-                                .expect("Storing new parent");
+                            if let Err(e) = self.store_page(new_parent) {
+                                log::warn!("Couldn't store parent: {e:?}");
+                            }
                         }
                         Err(e) => log::warn!("Couldn't update parent: {e:?}"),
                     }
@@ -387,13 +392,17 @@ impl RealmView {
             .collect()
     }
 
+    /// Stores a page, which must be correctly signed, as the storage drops it otherwise.
     pub fn store_page(&mut self, page: FloBlobPage) -> anyhow::Result<()> {
+        page.verify()?;
         self.dht_storage.store_flo(page.clone().into())?;
         self.pages.storage.insert(page.blob_id(), page);
         Ok(())
     }
 
+    /// Stores a tag, which must be correctly signed, as the storage drops it otherwise.
     pub fn store_tag(&mut self, tag: FloBlobTag) -> anyhow::Result<()> {
+        tag.verify()?;
         self.dht_storage.store_flo(tag.clone().into())?;
         self.tags.storage.insert(tag.blob_id(), tag);
         Ok(())
@@ -652,6 +661,7 @@ impl RealmViewBuilder {
         let t = self.tag.ok_or(anyhow::anyhow!("Need root tag"))?;
         let realm_signers = &self.signers.iter().collect::<Vec<&Signer>>();
         let realm = FloRealm::new(&self.name, self.cond.clone(), self.config, realm_signers)?;
+        realm.verify()?;
         self.dht_storage.store_flo(realm.clone().into())?;
 
         let ft = FloBlobTag::new_cuckoo(
@@ -662,6 +672,7 @@ impl RealmViewBuilder {
             t.cuckoo,
             &t.signers.iter().collect::<Vec<&Signer>>(),
         )?;
+        ft.verify()?;
         self.dht_storage.store_flo(ft.clone().into())?;
 
         let fp = FloBlobPage::new_cuckoo(
@@ -673,6 +684,7 @@ impl RealmViewBuilder {
             p.cuckoo,
             &p.signers.iter().collect::<Vec<&Signer>>(),
         )?;
+        fp.verify()?;
         self.dht_storage.store_flo(fp.clone().into())?;
 
         let realm = realm.edit_data_signers(
-- 
2.43.0


From c727c74e13bb1757cd630654a8f4e8b5c2c929b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 48/54] fix: the full path of a page whose parents form a loop
 overflowed the stack

---
 flmodules/src/dht_storage/realm_view.rs | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 68072a3..ce240a5 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -278,13 +278,30 @@ impl RealmView {
     }
 
     pub fn get_full_path_blob<T: BlobPathFamily>(&self, b: &T) -> anyhow::Result<String> {
-        let path = b
-            .get_path()
-            .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        // Anybody can store blobs, so the parents might be nested very deeply, or form a loop.
+        let mut parts = vec![];
+        let mut visited = HashSet::new();
+        let mut blob: &dyn BlobPathFamily = b;
+        loop {
+            parts.push(
+                blob.get_path()
+                    .ok_or(anyhow::anyhow!("Didn't find path in blob"))?
+                    .clone(),
+            );
+            match blob.get_parents().first() {
+                Some(parent) => {
+                    if !visited.insert(parent.clone()) {
+                        return Err(anyhow::anyhow!("The parents of this blob form a loop"));
+                    }
+                    blob = self
+                        .get_blob_path_family(parent)
+                        .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+                }
+                None => break,
+            }
         }
-        Ok(format!("/{path}"))
+        parts.reverse();
+        Ok(format!("/{}", parts.join("/")))
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From 2eadbc385fe310d6edd592c89b1987ae7e7c7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 49/54] fix: looking up a very long path overflowed the stack

---
 flmodules/src/dht_storage/realm_view.rs | 28 +++++++++----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index ce240a5..4df5167 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -509,27 +509,19 @@ where
         parts: Vec<&str>,
         curr: Vec<&BlobID>,
     ) -> anyhow::Result<&FloWrapper<T>> {
-        let ids = curr
-            .into_iter()
-            .flat_map(|id| once(id).chain(self.cuckoos.get(id).into_iter().flatten()))
-            .collect::<Vec<_>>();
-        if let Some(part) = parts.split_first() {
-            if let Some(f) = ids
+        let mut curr = curr.into_iter().cloned().collect::<Vec<_>>();
+        let mut found = None;
+        for part in parts {
+            let blob = curr
                 .iter()
+                .flat_map(|id| once(id).chain(self.cuckoos.get(id).into_iter().flatten()))
                 .filter_map(|id| self.storage.get(id))
-                .find(|f| f.get_path().map(|p| p == part.0).unwrap_or(false))
-            {
-                if part.1.len() == 0 {
-                    return Ok(f);
-                } else {
-                    let children = f.get_children();
-                    if !children.is_empty() {
-                        return self.get_path_internal(part.1.to_vec(), children.iter().collect());
-                    }
-                }
-            }
+                .find(|f| f.get_path().map(|p| p == part).unwrap_or(false))
+                .ok_or(anyhow::anyhow!("Couldn't find page"))?;
+            curr = blob.get_children();
+            found = Some(blob);
         }
-        Err(anyhow::anyhow!("Couldn't find page"))
+        found.ok_or(anyhow::anyhow!("Couldn't find page"))
     }
 
     async fn update_cuckoos(&mut self, bid: &BlobID) -> anyhow::Result<()> {
-- 
2.43.0


From 7d807c914b99b80d2bb29b08ecf6bae15b4ff96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 50/54] fix: a storage which can't be read must not replace the
 node's identity

---
 flnode/src/node.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flnode/src/node.rs b/flnode/src/node.rs
index c3353f1..2a9c8d1 100644
--- a/flnode/src/node.rs
+++ b/flnode/src/node.rs
@@ -276,13 +276,9 @@ impl Node {
 
     /// Fetches the config
     pub fn get_config(storage: Box<dyn DataStorage>) -> anyhow::Result<NodeConfig> {
-        let config_str = match storage.get(STORAGE_CONFIG) {
-            Ok(s) => s,
-            Err(_) => {
-                log::info!("Couldn't load configuration - start with empty");
-                "".to_string()
-            }
-        };
+        // A storage which can't be read is not an empty one: starting with a new configuration
+        // would overwrite the node's identity.
+        let config_str = storage.get(STORAGE_CONFIG)?;
         let mut config = NodeConfig::decode(&config_str);
         #[cfg(target_family = "wasm")]
         let enable_webproxy_request = false;
-- 
2.43.0


From 512aa755d2f02724fe985d8f7e8c19479d628406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 51/54] fix: signers which can't be loaded must not be
 overwritten

---
 flmodules/src/flo/storage.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/flo/storage.rs b/flmodules/src/flo/storage.rs
index 1912c59..e4c56e6 100644
--- a/flmodules/src/flo/storage.rs
+++ b/flmodules/src/flo/storage.rs
@@ -16,13 +16,25 @@ const STORAGE_NAME: &str = "CryptoStorage";
 
 impl CryptoStorage {
     pub fn new(ds: Box<dyn DataStorage + Send>) -> Self {
-        Self {
-            ds: Some(ds.clone()),
-            ..serde_yaml::from_str(&ds.get(STORAGE_NAME).unwrap_or("".to_string()))
-                .unwrap_or(CryptoStorage::default())
+        match Self::load(&ds) {
+            Ok(cs) => Self { ds: Some(ds), ..cs },
+            Err(e) => {
+                // Without the ds, so that the signers in there are not overwritten.
+                log::error!("Couldn't load signers, new ones will not be stored: {e:?}");
+                Self::default()
+            }
         }
     }
 
+    fn load(ds: &Box<dyn DataStorage + Send>) -> anyhow::Result<Self> {
+        let stored = ds.get(STORAGE_NAME)?;
+        Ok(if stored.is_empty() {
+            Self::default()
+        } else {
+            serde_yaml::from_str(&stored)?
+        })
+    }
+
     pub fn get_signer(&mut self) -> Signer {
         if let Some(signer) = self.signers.first() {
             return (*signer).clone();
-- 
2.43.0


From 58dd6e7913da3f589406a8727d8e58ae74fcd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 52/54] fix: requests of the web proxy never ended when the
 proxying node left

---
 flmodules/src/web_proxy/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index ca20927..1a797e6 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -54,6 +54,9 @@ impl WebProxyCore {
 
     pub fn node_list(&mut self, mut nodes: NodeIDs) {
         self.nodes = nodes.remove_missing(&vec![self.our_id].into());
+        // Nodes which left will not send the rest of their responses.
+        let connected = &self.nodes.0;
+        self.requests.retain(|_, (node, _)| connected.contains(node));
     }
 
     pub fn get_node(&mut self) -> Option<NodeID> {
-- 
2.43.0


From 6be9b35a25a6eadff885afbd88f6a27879e4e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 53/54] fix: a storage which can't be read must not be
 overwritten by an empty DHT

---
 flmodules/src/dht_storage/intern.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index ba8d2cb..a081221 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use flarch::{
     broker::SubsystemHandler,
-    data_storage::DataStorage,
+    data_storage::{DataStorage, DataStorageTemp},
     nodeids::{NodeID, U256},
     platform_async_trait,
 };
@@ -106,8 +106,15 @@ impl Messages {
         ds: Box<dyn DataStorage + Send>,
         config: DHTConfig,
     ) -> (Self, watch::Receiver<Stats>) {
-        let str = ds.get(MODULE_NAME).unwrap_or("".into());
-        let realms = serde_yaml::from_str(&str).unwrap_or(HashMap::new());
+        let (realms, ds) = match Self::load(&ds) {
+            Ok(realms) => (realms, ds),
+            Err(e) => {
+                // Without the ds, so that the Flos in there are not overwritten.
+                log::error!("Couldn't load Flos, new ones will not be stored: {e:?}");
+                let temp: Box<dyn DataStorage + Send> = Box::new(DataStorageTemp::new());
+                (HashMap::new(), temp)
+            }
+        };
         let (tx, rx) = watch::channel(Stats::default());
         let mut msgs = Self {
             realms,
@@ -120,6 +127,15 @@ impl Messages {
         (msgs, rx)
     }
 
+    fn load(ds: &Box<dyn DataStorage + Send>) -> anyhow::Result<HashMap<RealmID, RealmStorage>> {
+        let stored = ds.get(MODULE_NAME)?;
+        Ok(if stored.is_empty() {
+            HashMap::new()
+        } else {
+            serde_yaml::from_str(&stored)?
+        })
+    }
+
     fn msg_dht_router(&mut self, msg: DHTRouterOut) -> Vec<InternOut> {
         match msg {
             DHTRouterOut::MessageRouting(origin, _last_hop, _next_hop, key, msg) => msg
-- 
2.43.0


From f95e3077840ed0332991707c917fcfcadcd9a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 54/54] fix: random connections kept the old infos of nodes
 which changed

---
 flmodules/src/random_connections/core.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/random_connections/core.rs b/flmodules/src/random_connections/core.rs
index b95eefd..b096eb7 100644
--- a/flmodules/src/random_connections/core.rs
+++ b/flmodules/src/random_connections/core.rs
@@ -33,12 +33,11 @@ impl RandomStats {
                 .collect::<Vec<U256>>()
                 .into(),
         );
-        self.infos = self
-            .infos
-            .iter()
-            .chain(list.iter())
-            .unique()
-            .cloned()
+        // The new infos come first, so that a changed info replaces the old one.
+        self.infos = list
+            .into_iter()
+            .chain(std::mem::take(&mut self.infos))
+            .unique_by(|ni| ni.get_id())
             .collect();
     }
 
-- 
2.43.0

