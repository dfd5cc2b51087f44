From 9179ea37a866024c83393ef90dcc0012644a5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/59] fix: compare a threshold condition with its link
 element by element

Condition::equal_link compared the whole condition with every sub-link, so
that no Flo under a NofT rule ever verified, while a link without any
sub-conditions matched every condition.
---
 flcrypto/src/access.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..26971c1 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -208,8 +208,12 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(thr, condition_links) => {
+                matches!(self, Condition::NofT(t, conditions)
+                if t == thr && conditions.len() == condition_links.len() && conditions
+                    .iter()
+                    .zip(condition_links)
+                    .all(|(cond, cl)| cond.equal_link(cl)))
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From e02ade19f7d938ddbe33e51c2b4db36d726eb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 02/59] fix: refuse signatures of a wrong length instead of
 panicking

---
 flcrypto/src/signer_ed25519.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..31991ad 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,9 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s: ed25519_dalek::Signature = TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?
+            .into();
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From 46782e566ca4aa886232afb6c20f324b28c95f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 03/59] fix: evaluate can_sign for any number of signers

It panicked with more than one signer, and with one signer it only accepted
thresholds of exactly one, unlike verify_cond.
---
 flcrypto/src/access.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 26971c1..846f72a 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -249,22 +249,15 @@ impl Condition {
     }
 
     pub fn can_sign(&self, vids: &[&KeyPairID]) -> bool {
-        if vids.len() > 1 {
-            todo!("Check with more than one signer");
-        }
-        if let Some(&vid) = vids.first() {
-            match self {
-                Condition::Verifier(verifier) => &verifier.get_id() == vid,
-                Condition::Badge(_, badge) => badge.condition.can_sign(&[vid]),
-                Condition::NofT(nbr, conditions) => {
-                    conditions.iter().any(|c| c.can_sign(&[vid])) && nbr == &1
-                }
-                Condition::NotAvailable => false,
-                Condition::Pass => true,
-                Condition::Fail => false,
+        match self {
+            Condition::Verifier(verifier) => vids.contains(&&verifier.get_id()),
+            Condition::Badge(_, badge) => badge.condition.can_sign(vids),
+            Condition::NofT(nbr, conditions) => {
+                conditions.iter().filter(|c| c.can_sign(vids)).count() >= *nbr as usize
             }
-        } else {
-            self == &Condition::Pass
+            Condition::NotAvailable => false,
+            Condition::Pass => true,
+            Condition::Fail => false,
         }
     }
 
-- 
2.43.0


From 1136a48203e0f26838691b9e7937c577996458bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 04/59] fix: don't panic when comparing a badge whose condition
 isn't available

---
 flcrypto/src/access.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 846f72a..751d9e6 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -205,8 +205,8 @@ impl Condition {
             }
             ConditionLink::Badge(version_spec) => {
                 matches!(self, Condition::Badge(ver_spec, badge)
-                if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
-                    .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
+                if badge.id == version_spec.get_id() && version_spec.accepts(badge.version)
+                    && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
             ConditionLink::NofT(thr, condition_links) => {
                 matches!(self, Condition::NofT(t, conditions)
-- 
2.43.0


From 3a5efbdbf606bc6c0e4f0b3408ae52a03d358c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 05/59] fix: keep the cuckoos of a Flo when it is updated

---
 flmodules/src/dht_storage/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..65544fc 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -273,6 +273,8 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
+        // A new version of a Flo keeps the cuckoos attached to it.
+        let cuckoos = self.get_cuckoo_ids(&id).unwrap_or_default();
         self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
@@ -285,7 +287,8 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        df.cuckoos = cuckoos;
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
-- 
2.43.0


From 087ef987f268be87b61a7b7c6f806af1c852b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 06/59] fix: don't loop forever if the realm's own Flo takes
 more than the available space

---
 flmodules/src/dht_storage/core.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 65544fc..a19c935 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -245,9 +245,7 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        while self.size > self.realm_config.max_space && self.remove_furthest() {}
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -303,7 +301,9 @@ impl RealmStorage {
         }
     }
 
-    fn remove_furthest(&mut self) {
+    /// Removes the furthest Flo which is not the realm itself.
+    /// Returns false if there is nothing left to remove.
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -333,8 +333,10 @@ impl RealmStorage {
                 // );
 
                 self.remove_entry(&id);
+                return true;
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From dac6afa321e0c164a1f29d5e2ad02e1e607ce11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 07/59] fix: don't let cuckoo IDs grow the storage past its
 maximum space

---
 flmodules/src/dht_storage/core.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index a19c935..985b70a 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -184,9 +184,14 @@ impl RealmStorage {
     pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
         if let Some(fs) = self.flos.get_mut(parent) {
             if !fs.cuckoos.contains(&cuckoo) {
-                self.size -= fs.size() as u64;
+                let size_before = fs.size() as u64;
                 fs.cuckoos.push(cuckoo);
-                self.size += fs.size() as u64;
+                let size = self.size - size_before + fs.size() as u64;
+                if size > self.realm_config.max_space {
+                    fs.cuckoos.pop();
+                    return;
+                }
+                self.size = size;
             }
         }
     }
-- 
2.43.0


From 47a7acc5a051826b498225f17d970d88f40cafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 08/59] fix: don't count the realm's own Flo as space which can
 be freed

---
 flmodules/src/dht_storage/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 985b70a..740096d 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -268,6 +268,8 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    // The realm's own Flo is never removed.
+                    .filter(|id| ***id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
-- 
2.43.0


From 081bc2250a33760a853789af1350156758fa478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 09/59] fix: use the configuration of the newest version of a
 realm

---
 flmodules/src/dht_storage/core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 740096d..ec08eec 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -292,6 +292,12 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
+        if *id == *self.realm_id {
+            // The newest version of the realm defines its configuration.
+            if let Ok(realm) = TryInto::<FloRealm>::try_into(flo.clone()) {
+                self.realm_config = realm.cache().get_config();
+            }
+        }
         let mut df: FloStorage = flo.into();
         df.cuckoos = cuckoos;
         self.size += df.size() as u64;
-- 
2.43.0


From 8fe2fdb714c5e5c6b9e0814ff91327ac0ff28871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 10/59] fix: keep cuckoos over a restart

---
 flmodules/src/dht_storage/core.rs   | 15 +++++++++++----
 flmodules/src/dht_storage/intern.rs | 29 +++++++++++++++++------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index ec08eec..966b6b0 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -176,12 +176,17 @@ impl RealmStorage {
             .collect()
     }
 
-    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) {
+    /// Returns true if at least one of the cuckoos has been added.
+    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) -> bool {
+        let mut added = false;
         for cuckoo in cuckoos {
-            self.store_cuckoo_id(parent, cuckoo);
+            added |= self.store_cuckoo_id(parent, cuckoo);
         }
+        added
     }
-    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
+
+    /// Returns true if the cuckoo has been added.
+    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) -> bool {
         if let Some(fs) = self.flos.get_mut(parent) {
             if !fs.cuckoos.contains(&cuckoo) {
                 let size_before = fs.size() as u64;
@@ -189,11 +194,13 @@ impl RealmStorage {
                 let size = self.size - size_before + fs.size() as u64;
                 if size > self.realm_config.max_space {
                     fs.cuckoos.pop();
-                    return;
+                    return false;
                 }
                 self.size = size;
+                return true;
             }
         }
+        false
     }
 
     /// TODO: decide which IDs need to be stored.
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..8a0be7f 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -242,9 +242,7 @@ impl Messages {
                     });
             }
             MessageClosest::StoreCuckooID(gid) => {
-                self.realms
-                    .get_mut(&gid.realm_id())
-                    .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store_cuckoo_ids(gid.realm_id(), &fid, vec![gid.flo_id().clone()]);
             }
         }
         vec![]
@@ -255,9 +253,7 @@ impl Messages {
             MessageDest::FloValue(fc) => {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
-                self.realms
-                    .get_mut(&fc.0.realm_id())
-                    .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -332,11 +328,7 @@ impl Messages {
             MessageNeighbour::Flos(flo_cuckoos) => {
                 for (flo, cuckoos) in flo_cuckoos {
                     self.store_flo(flo.clone());
-                    self.realms.get_mut(&flo.realm_id()).map(|realm| {
-                        cuckoos
-                            .into_iter()
-                            .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
-                    });
+                    self.store_cuckoo_ids(&flo.realm_id(), &flo.flo_id(), cuckoos);
                 }
                 vec![]
             }
@@ -369,6 +361,17 @@ impl Messages {
         res
     }
 
+    // Attaches the cuckoos to their parent, and keeps them over a restart.
+    fn store_cuckoo_ids(&mut self, rid: &RealmID, parent: &FloID, cuckoos: Vec<FloID>) {
+        if self
+            .realms
+            .get_mut(rid)
+            .is_some_and(|realm| realm.store_cuckoo_ids(parent, cuckoos))
+        {
+            self.store();
+        }
+    }
+
     // Try really hard to store the flo.
     // Either its realm is already known, or it is a new realm.
     // When 'true' is returned, then the flo has been stored.
@@ -392,6 +395,7 @@ impl Messages {
         //     flo.data(),
         //     TryInto::<FloRealm>::try_into(flo.clone())
         // );
+        let is_cuckoo = flo.flo_config().cuckoo_parent().is_some();
         let modification = self
             .realms
             .get_mut(&flo.realm_id())
@@ -404,7 +408,8 @@ impl Messages {
                     .is_some()
             });
 
-        if modification {
+        // Even if the Flo is already known, it might have been attached to its parent.
+        if modification || is_cuckoo {
             self.store();
         }
         modification
-- 
2.43.0


From 94659944a7c530ff14666079a167570ae3783f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 11/59] fix: refuse IDs which aren't hexadecimal instead of
 panicking

---
 flarch/src/nodeids.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..823fd46 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Give two hexadecimal characters for each byte")]
+    NotHex,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -133,6 +135,9 @@ impl FromStr for U256 {
         if s.len() > 64 {
             return Err(ParseError::HexTooLong.into());
         }
+        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ParseError::NotHex.into());
+        }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
             .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
-- 
2.43.0


From db5e11b48dce13e69eb203bc251f4113b67c146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 12/59] fix: hash equal hash-maps to the same ID

---
 flarch/src/nodeids.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 823fd46..02b4128 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -91,12 +91,21 @@ impl U256 {
         domain: &str,
         hm: &HashMap<K, V>,
     ) -> Self {
-        let mut parts = vec![];
-        for (k, v) in hm {
-            parts.push(rmp_serde::to_vec(k).unwrap());
-            parts.push(rmp_serde::to_vec(v).unwrap());
-        }
-        let slices: Vec<&[u8]> = parts.iter().map(|e| e.as_slice()).collect();
+        let mut parts: Vec<_> = hm
+            .iter()
+            .map(|(k, v)| {
+                (
+                    rmp_serde::to_vec(k).unwrap(),
+                    rmp_serde::to_vec(v).unwrap(),
+                )
+            })
+            .collect();
+        // The order of a HashMap is random, but equal maps need to have the same hash.
+        parts.sort();
+        let slices: Vec<&[u8]> = parts
+            .iter()
+            .flat_map(|(k, v)| [k.as_slice(), v.as_slice()])
+            .collect();
         Self::hash_domain_parts(domain, &slices)
     }
 
-- 
2.43.0


From e2a3f876af49c13ecd2aff0163ec4139c2c0f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 13/59] fix: remove a disconnected node also from the root
 bucket

---
 flmodules/src/dht_router/kademlia.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..1793f93 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -81,15 +81,7 @@ impl Kademlia {
     }
 
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
-            .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        self.remove_node(id);
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From e59d00283130eed18161a6cfbde6d3494e9f2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 14/59] fix: don't route messages on which already arrived

---
 flmodules/src/dht_router/intern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_router/intern.rs b/flmodules/src/dht_router/intern.rs
index d24e0f2..943198a 100644
--- a/flmodules/src/dht_router/intern.rs
+++ b/flmodules/src/dht_router/intern.rs
@@ -216,7 +216,9 @@ impl Intern {
     }
 
     fn closest_or_connected(&self, key: U256, last: Option<&U256>) -> Vec<U256> {
-        if self.connected.contains(&key) {
+        if key == self.core.config.root {
+            vec![]
+        } else if self.connected.contains(&key) {
             vec![key]
         } else {
             self.core.route_closest(&key, last)
-- 
2.43.0


From 85af93ed4ee8edb7470fbbfd52df9158da026023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 15/59] fix: tell if a gossip event is too old to be kept

---
 flmodules/src/gossip_events/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..b8fb2aa 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -160,10 +160,12 @@ impl Events {
     }
 
     // Insert the message in the events and make sure the limits are kept.
+    // Returns false if the message is too old to be kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
-- 
2.43.0


From c718b8197e0b5bf45270febca1f0b0f1f188b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 16/59] fix: keep the same gossip events on all nodes when
 times are equal

---
 flmodules/src/gossip_events/core.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index b8fb2aa..fc7d950 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -151,7 +151,8 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            // Two events with the same time are ordered by their ID, so that all nodes keep the same.
+            if (ev.created, id) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -189,7 +190,8 @@ impl Events {
     }
 
     // Ensures that there are no more than max_events stored.
-    // Deletes the oldest messages if there are more.
+    // Deletes the oldest messages if there are more, and takes the ID for messages
+    // with the same time, so that all nodes keep the same messages.
     fn limit(&mut self) {
         if self.events.len() <= self.config.max_events {
             return;
@@ -198,7 +200,7 @@ impl Events {
             .events
             .iter()
             .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            .sorted_by(|a, b| (b.1, b.0).cmp(&(a.1, a.0)))
             .skip(self.config.max_events)
             .map(|(k, _)| k)
             .cloned()
-- 
2.43.0


From f09c44c6afab15e1f7e5fb2aa15a622878c82125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 17/59] fix: don't destroy a stored value when writing the new
 one fails

---
 flarch/src/data_storage/libc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..4622583 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
     path::PathBuf,
 };
 
@@ -63,10 +63,15 @@ impl DataStorage for DataStorageFile {
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
+        // Write to a temporary file first, so that the old value survives a crash or a full disk.
+        let name = self.name(key);
+        let tmp = name.with_extension("tmp");
+        File::create(&tmp)
             .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
             .write_all(value.as_bytes())
             .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
+        rename(tmp, name)
+            .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))?;
         Ok(())
     }
 
-- 
2.43.0


From 39ebf78f3eec24cdfbc665ab2e244f404f116e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 18/59] fix: removing a key that isn't stored is not an error

---
 flarch/src/data_storage/libc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 4622583..903f73c 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -76,7 +76,11 @@ impl DataStorage for DataStorageFile {
     }
 
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
-        remove_file(self.name(key))
+        let name = &self.name(key);
+        if !name.exists() {
+            return Ok(());
+        }
+        remove_file(name)
             .map_err(|e| StorageError::Underlying(format!("While removing file: {:?}", e)))?;
         Ok(())
     }
-- 
2.43.0


From 215e4b015be862010b5923b2dfcc57c210214239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 19/59] fix: don't panic on packets with impossible numbers of
 parts

---
 flarch/src/web_rtc/node_connection.rs | 28 ++++++++++++---------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..f7397f4 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -337,7 +337,7 @@ impl Packet {
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, HashMap<usize, String>>,
 }
 
 impl PacketCollector {
@@ -345,23 +345,19 @@ impl PacketCollector {
         match Self::get_params(&p) {
             None => return Some(p.data),
             Some((id, total, part)) => {
-                // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
+                // The remote node can send any numbers.
+                if part >= total {
+                    return None;
                 }
 
-                // Check if one of the entires is full, and return it.
-                self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+                // Add the new packet to the list, and return the message if it is full.
+                let parts = self.packets.entry(id).or_default();
+                parts.insert(part, p.data);
+                if parts.len() < total {
+                    return None;
+                }
+                let mut parts = self.packets.remove(&id)?;
+                (0..total).map(|part| parts.remove(&part)).collect()
             }
         }
     }
-- 
2.43.0


From c6a7c3c070f6e2aefa109a034ebd04d948b266db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 20/59] fix: split messages with multi-byte characters in parts
 which fit in a packet

---
 flarch/src/web_rtc/node_connection.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index f7397f4..e857ffa 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -311,12 +311,14 @@ impl Packet {
             })
             .unwrap()];
         }
-        let chunks = msg
-            .chars()
-            .collect::<Vec<_>>()
-            .chunks(WEBRTC_MAX_SIZE as usize)
-            .map(|chunk| chunk.iter().collect::<String>())
-            .collect::<Vec<_>>();
+        // The size is in bytes, and characters cannot be split.
+        let mut chunks = vec![String::new()];
+        for c in msg.chars() {
+            if chunks[chunks.len() - 1].len() + c.len_utf8() > WEBRTC_MAX_SIZE {
+                chunks.push(String::new());
+            }
+            chunks.last_mut().unwrap().push(c);
+        }
         let id = U256::rnd();
         let total = Some(chunks.len());
         chunks
-- 
2.43.0


From 5087fc5798b8e0959931c69447a84ac0ceac11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 21/59] fix: send waiting messages when the state of a
 connection changes to open

---
 flarch/src/web_rtc/node_connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index e857ffa..eae3621 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -265,7 +265,7 @@ impl NodeConnection {
                     Direction::Incoming => self.state_incoming = Some(state),
                     Direction::Outgoing => self.state_outgoing = Some(state),
                 }
-                vec![NCOutput::State(dir, state)]
+                [vec![NCOutput::State(dir, state)], self.send_queue()].concat()
             }
             WebRTCOutput::Disconnected | WebRTCOutput::Error(_) => {
                 let msg = match dir {
-- 
2.43.0


From a01c2d5c6d6d98271570e0bb2c577537f0b5ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:12 +0000
Subject: [PATCH 22/59] fix: an announcement or info with a public key of a
 wrong length panicked

---
 flmodules/src/nodeconfig.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..e097049 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -75,17 +75,24 @@ impl NodeInfo {
     }
 
     /// Returns the unique id, based on the public key.
+    /// A `NodeInfo` from another node can hold a public key with a wrong length: then the id is
+    /// the hash of it, which doesn't correspond to any valid public key.
     pub fn get_id(&self) -> U256 {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
-- 
2.43.0


From 0b827afacfb6c792a6c88ff9120a187a8075227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:12 +0000
Subject: [PATCH 23/59] fix: an info in the oldest format, sent by another
 node, panicked

---
 flmodules/src/nodeconfig.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index e097049..0ca09e5 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -179,8 +179,16 @@ bitflags! {
 }
 
 impl From<NodeInfoV1> for NodeInfoV2 {
+    // The old information cannot be used anymore. But it can come from another node, so it must
+    // not panic. As there is no public key, it will never verify.
     fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+        Self {
+            name: String::new(),
+            client: String::new(),
+            pubkey: vec![],
+            modules: ModulesV2::empty(),
+            _id: None,
+        }
     }
 }
 
-- 
2.43.0


From 51847680fec4695aa4a64ee15aa848b8ec50ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 24/59] fix: nodes with a changed info were reported several
 times

---
 flmodules/src/random_connections/core.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/random_connections/core.rs b/flmodules/src/random_connections/core.rs
index b95eefd..8b6484f 100644
--- a/flmodules/src/random_connections/core.rs
+++ b/flmodules/src/random_connections/core.rs
@@ -33,12 +33,11 @@ impl RandomStats {
                 .collect::<Vec<U256>>()
                 .into(),
         );
-        self.infos = self
-            .infos
-            .iter()
-            .chain(list.iter())
-            .unique()
-            .cloned()
+        // Only keep the newest info of each node
+        self.infos = list
+            .into_iter()
+            .chain(std::mem::take(&mut self.infos))
+            .unique_by(|ni| ni.get_id())
             .collect();
     }
 
-- 
2.43.0


From 445a4b505b71a8d83b1e96897775d73612a592ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 25/59] fix: nodes which are twice in a list were added twice

---
 flarch/src/nodeids.rs                     | 12 +++++-------
 flmodules/src/random_connections/nodes.rs | 11 +++++------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 02b4128..d5f1d0c 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -243,13 +243,11 @@ impl NodeIDs {
 
     /// Merges all other nodes into this list. Ignores nodes already in this list.
     pub fn merge(&mut self, other: NodeIDs) {
-        self.0.extend(
-            other
-                .0
-                .into_iter()
-                .filter(|n| !self.0.contains(n))
-                .collect::<Vec<NodeID>>(),
-        );
+        for n in other.0 {
+            if !self.0.contains(&n) {
+                self.0.push(n);
+            }
+        }
     }
 
     fn remove(&mut self, nodes: &NodeIDs, exists: bool) -> NodeIDs {
diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 4a664d0..5adfe5f 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -33,12 +33,11 @@ impl Nodes {
     }
 
     pub fn add_new(&mut self, nodes: Vec<NodeID>) {
-        let nodes_new: Vec<NodeID> = nodes.into_iter().filter(|n| !self.contains(n)).collect();
-        let mut nts = nodes_new
-            .iter()
-            .map(|n| NodeTime { id: *n, ticks: 0 })
-            .collect();
-        self.0.append(&mut nts);
+        for id in nodes {
+            if !self.contains(&id) {
+                self.0.push(NodeTime { id, ticks: 0 });
+            }
+        }
     }
 
     pub fn contains(&self, node: &NodeID) -> bool {
-- 
2.43.0


From f87110ce1299ac131bc71a95d16320dce959305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 26/59] fix: removing the oldest nodes removed the first ones
 of the list

---
 flmodules/src/random_connections/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 5adfe5f..db6b08c 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -117,7 +117,7 @@ impl Nodes {
     // Removes nodes that are as old or older than age and returns the removed nodes.
     pub fn remove_oldest_ticks(&mut self, ticks: u32) -> NodeIDs {
         let nodes = self.oldest_ticks(ticks);
-        self.0.splice(..nodes.0.len(), vec![]);
+        self.remove(&nodes);
         nodes
     }
 
-- 
2.43.0


From 03d26b04111a9ac76e99b95148d8ec66894dbd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 27/59] fix: connections to nodes which don't answer blocked
 new connections forever

---
 flmodules/src/random_connections/intern.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..aa03ee4 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,13 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        // Don't wait forever for nodes which don't answer: with enough of them, no new
+        // connections would be started anymore.
+        let timed_out = self
+            .storage
+            .connecting
+            .remove_oldest_ticks(self.cfg.connecting_timeout);
+        self.storage.failure(&timed_out);
 
         concat([
             self.new_connection(),
-- 
2.43.0


From c297c1bcb612dc8386a7a0a13e37736dc2be917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 28/59] fix: several messages to a node which is being
 connected kept it from connecting

---
 flmodules/src/network/intern.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..15fd0d2 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -50,10 +50,15 @@ pub(super) enum InternOut {
 
 const UPDATE_INTERVAL: usize = 60;
 
+/// How many seconds the setup of an outgoing connection may take before a new one is started.
+const SETUP_TIMEOUT: usize = 10;
+
 pub(super) struct Intern {
     node_config: NodeConfig,
     get_update: usize,
     connections: HashMap<NodeID, IOConnection>,
+    /// The outgoing connections being set up, with the seconds since they started
+    setups: HashMap<NodeID, usize>,
     tx: Option<watch::Sender<Vec<NodeID>>>,
 }
 
@@ -67,6 +72,7 @@ impl Intern {
                 node_config,
                 get_update: UPDATE_INTERVAL,
                 connections: HashMap::new(),
+                setups: HashMap::new(),
                 tx: Some(tx),
             },
             rx,
@@ -173,6 +179,7 @@ impl Intern {
     }
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
+        self.setups.values_mut().for_each(|seconds| *seconds += 1);
         self.get_update -= 1;
         (self.get_update == 0)
             .then(|| {
@@ -263,15 +270,16 @@ impl Intern {
             log::trace!("Already connected to {}", dst);
             vec![]
         } else {
-            if self.connection_state_check(dst, &Direction::Outgoing, &ConnectionState::Setup) {
-                // TODO: with the Helium browser, this message appears a lot. And then Helium doesn't
-                // connect with webrtc.
-                log::warn!(
-                    "Asking to connect to {dst} while connection setup is in place - starting new setup"
-                );
-            } else {
-                self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::Setup);
+            // A second setup would make the answer to the first one useless, and the connection
+            // would never be established.
+            if self.connection_state_check(dst, &Direction::Outgoing, &ConnectionState::Setup)
+                && self.setups.get(dst).map_or(false, |s| *s < SETUP_TIMEOUT)
+            {
+                log::trace!("Connection setup to {dst} is in place");
+                return vec![];
             }
+            self.setups.insert(*dst, 0);
+            self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::Setup);
             vec![InternOut::WebRTC(WebRTCConnIn::Connect(*dst))]
         }
     }
-- 
2.43.0


From 61b9f348a5d7abda75e0195a289612294fc7512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 29/59] fix: the list of connections didn't follow the
 connections

---
 flmodules/src/network/intern.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 15fd0d2..a3f2e77 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -130,11 +130,12 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                if self.connected_only(&remote_node, &dir) {
+                let disconnected = self.connected_only(&remote_node, &dir);
+                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
+                if disconnected {
                     out.push(NetworkOut::Disconnected(remote_node.clone()).into());
                     self.send_connections();
                 }
-                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
                     NCInput::Setup(dir, pi.message),
@@ -212,6 +213,7 @@ impl Intern {
                 let new_connection = !self.connected(&id);
                 self.connection_state_set(id, &dir, ConnectionState::Connected);
                 if new_connection {
+                    self.send_connections();
                     vec![NetworkOut::Connected(id).into()]
                 } else {
                     vec![]
@@ -221,6 +223,7 @@ impl Intern {
                 let new_disconnection = self.connected_only(&id, &dir);
                 self.connection_state_set(id, &dir, ConnectionState::None);
                 if new_disconnection {
+                    self.send_connections();
                     vec![NetworkOut::Disconnected(id).into()]
                 } else {
                     vec![]
-- 
2.43.0


From 957c2bf67ebbe9c7ead8d8edfff355fa98058c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 30/59] fix: late ICE candidates of a connection let it be
 reported as disconnected

---
 flmodules/src/network/intern.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index a3f2e77..8b988c7 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -11,7 +11,7 @@ use flarch::{
     nodeids::{NodeID, U256},
     platform_async_trait,
     web_rtc::{
-        messages::PeerInfo,
+        messages::{PeerInfo, PeerMessage},
         node_connection::{Direction, NCInput, NCOutput},
         websocket::{WSClientIn, WSClientOut},
         WebRTCConnIn, WebRTCConnOut,
@@ -130,8 +130,15 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                let disconnected = self.connected_only(&remote_node, &dir);
-                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
+                // Only these messages start a new connection. The others, like late ICE
+                // candidates, don't have any influence on an established connection.
+                let new_setup = matches!(pi.message, PeerMessage::Init | PeerMessage::Offer(_));
+                let disconnected = new_setup && self.connected_only(&remote_node, &dir);
+                if new_setup
+                    || !self.connection_state_check(&remote_node, &dir, &ConnectionState::Connected)
+                {
+                    self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
+                }
                 if disconnected {
                     out.push(NetworkOut::Disconnected(remote_node.clone()).into());
                     self.send_connections();
-- 
2.43.0


From f4f9c94c501ee8cb12b61c79bf76613009440815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 31/59] fix: texts given after a disconnection were sent to the
 closed connection

---
 flarch/src/web_rtc/node_connection.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index eae3621..60e8047 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -213,10 +213,15 @@ impl NodeConnection {
                 self.msg_queue.append(&mut Packet::split_msg(msg_str));
                 self.send_queue()
             }
-            NCInput::Disconnect => vec![
-                NCOutput::Incoming(WebRTCInput::Disconnect),
-                NCOutput::Outgoing(WebRTCInput::Disconnect),
-            ],
+            NCInput::Disconnect => {
+                // The connections close without a message, and don't send texts anymore.
+                self.state_incoming = None;
+                self.state_outgoing = None;
+                vec![
+                    NCOutput::Incoming(WebRTCInput::Disconnect),
+                    NCOutput::Outgoing(WebRTCInput::Disconnect),
+                ]
+            }
 
             NCInput::GetStates => {
                 let mut out = vec![];
-- 
2.43.0


From 7ab52ebad935b2e9225a0d7f767d6324a807d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 32/59] fix: a signalling message from another node panicked

---
 flmodules/src/network/intern.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 8b988c7..9e034ec 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -200,11 +200,10 @@ impl Intern {
     fn msg_wrapper(&mut self, id: NodeID, msg: String) -> Vec<InternOut> {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
-                if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                if nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME).is_some() {
+                    // Signalling over other nodes is not implemented yet
+                    log::warn!("Ignoring signalling message from {id}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From cada8a3f068d9115fb2869cf3a60592333f34bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 33/59] fix: a text arriving during a disconnection let the
 node look connected forever

---
 flmodules/src/network/intern.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 9e034ec..03fbd9e 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -237,7 +237,10 @@ impl Intern {
             }
             NCOutput::Text(msg) => {
                 if !self.connected(&id) {
-                    log::warn!("Got text for unconnected node ({id})");
+                    // This can be on its way while the node gets disconnected. Passing it on
+                    // would let the node look connected again, forever.
+                    log::warn!("Dropping text for unconnected node ({id})");
+                    return vec![];
                 }
                 self.msg_wrapper(id, msg)
             }
-- 
2.43.0


From 40e19513f8b1fed92534094893cc663eca032337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 34/59] fix: texts given during a new connection setup were
 given to the replaced connection

---
 flarch/src/web_rtc/node_connection.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 60e8047..44821c8 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -233,15 +233,25 @@ impl NodeConnection {
                 }
                 out
             }
-            NCInput::Setup(dir, pm) => match dir {
-                Direction::Incoming => vec![NCOutput::Incoming(WebRTCInput::Setup(pm))],
-                Direction::Outgoing => {
-                    if self.state_outgoing.is_none() {
-                        self.state_outgoing = Some(ConnectionStateMap::default());
+            NCInput::Setup(dir, pm) => {
+                if matches!(pm, PeerMessage::Init | PeerMessage::Offer(_)) {
+                    // An eventual connection in this direction is replaced by a new one, and
+                    // this happens without a message.
+                    match dir {
+                        Direction::Incoming => self.state_incoming = None,
+                        Direction::Outgoing => self.state_outgoing = None,
                     }
-                    vec![NCOutput::Outgoing(WebRTCInput::Setup(pm))]
                 }
-            },
+                match dir {
+                    Direction::Incoming => vec![NCOutput::Incoming(WebRTCInput::Setup(pm))],
+                    Direction::Outgoing => {
+                        if self.state_outgoing.is_none() {
+                            self.state_outgoing = Some(ConnectionStateMap::default());
+                        }
+                        vec![NCOutput::Outgoing(WebRTCInput::Setup(pm))]
+                    }
+                }
+            }
             _ => vec![],
         }
     }
-- 
2.43.0


From 36a9dcdd0385d2a8f6874f58bcb476241caac936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 35/59] fix: texts given before the data channel is open were
 lost

---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index bfd6cb7..6ec468b 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -10,7 +10,10 @@ use webrtc::{
         interceptor_registry::register_default_interceptors, media_engine::MediaEngine,
         setting_engine::SettingEngine, APIBuilder,
     },
-    data_channel::{data_channel_message::DataChannelMessage, RTCDataChannel},
+    data_channel::{
+        data_channel_message::DataChannelMessage, data_channel_state::RTCDataChannelState,
+        RTCDataChannel,
+    },
     ice::mdns::MulticastDnsMode,
     ice_transport::{
         ice_candidate::{RTCIceCandidate, RTCIceCandidateInit},
@@ -337,20 +340,20 @@ impl WebRTCConnectionSetupLibc {
     }
 
     async fn send_queue(&mut self) -> anyhow::Result<()> {
-        let state_open = self.get_state().await?.data_connection == Some(DataChannelState::Open);
-        if state_open || self.direction == Some(Direction::Incoming) {
-            let rtc_data = self.rtc_data.lock().await;
-            if let Some(ref mut data_channel) = rtc_data.as_ref() {
-                for msg_queue in self.queue.drain(..) {
-                    data_channel
-                        .send_text(msg_queue)
-                        .await
-                        .map_err(|e| SetupError::Send(e.to_string()))?;
+        // The data channel opens after the connection, and cannot send anything before.
+        let mut result = Ok(());
+        let rtc_data = self.rtc_data.lock().await;
+        if let Some(data_channel) = rtc_data.as_ref() {
+            let open = || data_channel.ready_state() == RTCDataChannelState::Open;
+            while !self.queue.is_empty() && open() {
+                let sent = data_channel.send_text(self.queue[0].clone()).await;
+                if sent.is_ok() || open() {
+                    self.queue.remove(0);
                 }
-                return Ok(());
+                result = result.and(sent.map(|_| ()).map_err(|e| SetupError::Send(e.to_string())));
             }
         }
-        Ok(())
+        Ok(result?)
     }
 
     async fn setup(&mut self, pm: PeerMessage) -> anyhow::Result<Option<PeerMessage>> {
-- 
2.43.0


From a183331d1f8522801115bd44f087d0a341456303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 36/59] fix: an unreadable session description panicked

---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index 6ec468b..28bfbb0 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -185,11 +185,10 @@ impl WebRTCConnectionSetupLibc {
         Ok(())
     }
 
-    fn get_desc(sdp_type: RTCSdpType, sdp: String) -> RTCSessionDescription {
+    fn get_desc(sdp_type: RTCSdpType, sdp: String) -> anyhow::Result<RTCSessionDescription> {
         let sdp_conv = sdp.replace("\r\n", "\\r\\n");
         let rtcsession = &format!("{{ \"type\": \"{sdp_type}\", \"sdp\": \"{sdp_conv}\"}}");
-        let rtcsess = serde_json::from_str(rtcsession).unwrap();
-        rtcsess
+        Ok(serde_json::from_str(rtcsession)?)
     }
 
     /// Returns the offer string that needs to be sent to the `Follower` node.
@@ -227,7 +226,7 @@ impl WebRTCConnectionSetupLibc {
         }
         self.direction = Some(Direction::Incoming);
 
-        let desc = Self::get_desc(RTCSdpType::Offer, offer);
+        let desc = Self::get_desc(RTCSdpType::Offer, offer)?;
         self.connection
             .set_remote_description(desc)
             .await
@@ -279,7 +278,7 @@ impl WebRTCConnectionSetupLibc {
         }
 
         self.connection
-            .set_remote_description(Self::get_desc(RTCSdpType::Answer, answer))
+            .set_remote_description(Self::get_desc(RTCSdpType::Answer, answer)?)
             .await
             .map_err(to_error)?;
         Ok(())
-- 
2.43.0


From 6cb0838bcad6afb79585abd1f882fa0f238c3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 37/59] fix: a message which isn't a text panicked

---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index 28bfbb0..9b31500 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -412,10 +412,12 @@ impl WebRTCConnectionSetupLibc {
                 log::trace!("Got message before channel is opened!");
                 msgs.push(WebRTCOutput::Connected);
             }
-            let msg_str = String::from_utf8(msg.data.to_vec()).unwrap();
+            match String::from_utf8(msg.data.to_vec()) {
+                Ok(msg_str) => msgs.push(WebRTCOutput::Text(msg_str)),
+                Err(e) => log::warn!("Dropping message which isn't a text: {e:?}"),
+            }
             let mut broker = broker.clone();
             Box::pin(async move {
-                msgs.push(WebRTCOutput::Text(msg_str));
                 for msg in msgs {
                     broker
                         .emit_msg_out(msg)
-- 
2.43.0


From 6158c58711c6da90e456f8a31203731dd32075c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 38/59] fix: texts with many escaped characters were split in
 parts too big for WebRTC

---
 flarch/src/web_rtc/node_connection.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 44821c8..476d718 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -317,7 +317,23 @@ impl SubsystemHandler<NCInput, NCOutput> for NodeConnection {
 
 impl Packet {
     fn split_msg(msg: String) -> Vec<String> {
-        if msg.len() <= WEBRTC_MAX_SIZE {
+        // The size is in bytes once escaped in the JSON, and characters cannot be split.
+        let size = |c: char| match c {
+            '"' | '\\' | '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' => 2,
+            '\0'..='\u{1f}' => 6,
+            _ => c.len_utf8(),
+        };
+        let mut chunks = vec![String::new()];
+        let mut chunk_size = 0;
+        for c in msg.chars() {
+            if chunk_size + size(c) > WEBRTC_MAX_SIZE {
+                chunks.push(String::new());
+                chunk_size = 0;
+            }
+            chunks.last_mut().unwrap().push(c);
+            chunk_size += size(c);
+        }
+        if chunks.len() == 1 {
             return vec![serde_json::to_string(&Self {
                 id: None,
                 part: None,
@@ -326,14 +342,6 @@ impl Packet {
             })
             .unwrap()];
         }
-        // The size is in bytes, and characters cannot be split.
-        let mut chunks = vec![String::new()];
-        for c in msg.chars() {
-            if chunks[chunks.len() - 1].len() + c.len_utf8() > WEBRTC_MAX_SIZE {
-                chunks.push(String::new());
-            }
-            chunks.last_mut().unwrap().push(c);
-        }
         let id = U256::rnd();
         let total = Some(chunks.len());
         chunks
-- 
2.43.0


From f0c000b81952fc162f5b796741d2a694d7958820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 39/59] fix: the indexes of WebSocket connections changed when
 another one was closed

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..7bb6f58 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,7 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -20,14 +20,14 @@ use crate::{
 };
 
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Arc<Mutex<HashMap<usize, WSConnection>>>,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let mut broker_cl = broker.clone();
@@ -40,7 +40,7 @@ impl WebSocketServer {
                         match WSConnection::new(stream, broker_cl2, connection_id).await {
                             Ok(conn) => {
                                 log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
+                                connections_cl.lock().await.insert(connection_id, conn);
                                 broker_cl
                                     .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                     .expect("Error sending connect message");
@@ -72,19 +72,19 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             match msg {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
                             conn.close();
-                            connections.remove(id);
+                            connections.remove(&id);
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         conn.close();
-                        connections.remove(id);
+                        connections.remove(&id);
                     }
                 }
                 WSServerIn::Stop => {
-- 
2.43.0


From 5219dd879881bafe4bb8fa6123b01c2cd3b2941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 40/59] fix: a client not finishing its handshake blocked the
 WebSocket server

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 27 ++++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 7bb6f58..9c35a14 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -30,23 +30,28 @@ impl WebSocketServer {
         let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
-                        let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.insert(connection_id, conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
+                        // A client which doesn't finish the handshake must not block the others.
+                        let mut broker_cl = broker_cl.clone();
+                        let connections_cl = Arc::clone(&connections_cl);
+                        tokio::spawn(async move {
+                            match WSConnection::new(stream, broker_cl.clone(), connection_id).await
+                            {
+                                Ok(conn) => {
+                                    log::trace!("Got new connection");
+                                    connections_cl.lock().await.insert(connection_id, conn);
+                                    broker_cl
+                                        .emit_msg_out(WSServerOut::NewConnection(connection_id))
+                                        .expect("Error sending connect message");
+                                }
+                                Err(e) => log::error!("Error while getting connection: {:?}", e),
                             }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
-                        }
+                        });
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
-- 
2.43.0


From 60c8d256ccd011b7b8f70188f9a136f8adf61e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 41/59] fix: messages of a WebSocket connection could be
 reported before the connection

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 9c35a14..e4bd68e 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -40,14 +40,14 @@ impl WebSocketServer {
                         let mut broker_cl = broker_cl.clone();
                         let connections_cl = Arc::clone(&connections_cl);
                         tokio::spawn(async move {
-                            match WSConnection::new(stream, broker_cl.clone(), connection_id).await
-                            {
-                                Ok(conn) => {
+                            match WSConnection::new(stream).await {
+                                Ok((conn, rd, rx)) => {
                                     log::trace!("Got new connection");
                                     connections_cl.lock().await.insert(connection_id, conn);
                                     broker_cl
                                         .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                         .expect("Error sending connect message");
+                                    WSConnection::loop_read(broker_cl, rd, rx, connection_id).await;
                                 }
                                 Err(e) => log::error!("Error while getting connection: {:?}", e),
                             }
@@ -111,9 +111,11 @@ pub struct WSConnection {
 impl WSConnection {
     async fn new(
         stream: TcpStream,
-        broker: BrokerWSServer,
-        id: usize,
-    ) -> anyhow::Result<WSConnection> {
+    ) -> anyhow::Result<(
+        WSConnection,
+        SplitStream<WebSocketStream<TcpStream>>,
+        oneshot::Receiver<bool>,
+    )> {
         let websocket = accept_async(stream)
             .await
             .map_err(|e| WSError::Underlying(e.to_string()))?;
@@ -123,9 +125,7 @@ impl WSConnection {
             websocket: wr,
             tx: Some(tx),
         };
-
-        WSConnection::loop_read(broker, rd, rx, id).await;
-        Ok(uwsc)
+        Ok((uwsc, rd, rx))
     }
 
     async fn loop_read(
-- 
2.43.0


From 0fd909abc6c7651e40e23d75b76db7557c17039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 42/59] fix: connections of a stopped WebSocket server were
 still up

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 24 ++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index e4bd68e..aaf88d0 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,13 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc,
+    },
+};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -22,6 +28,7 @@ use crate::{
 pub struct WebSocketServer {
     connections: Arc<Mutex<HashMap<usize, WSConnection>>>,
     conn_thread: JoinHandle<()>,
+    stopped: Arc<AtomicBool>,
 }
 
 impl WebSocketServer {
@@ -29,6 +36,8 @@ impl WebSocketServer {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
         let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
+        let stopped = Arc::new(AtomicBool::new(false));
+        let stopped_cl = Arc::clone(&stopped);
         let mut broker = Broker::new();
         let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
@@ -39,11 +48,17 @@ impl WebSocketServer {
                         // A client which doesn't finish the handshake must not block the others.
                         let mut broker_cl = broker_cl.clone();
                         let connections_cl = Arc::clone(&connections_cl);
+                        let stopped_cl = Arc::clone(&stopped_cl);
                         tokio::spawn(async move {
                             match WSConnection::new(stream).await {
                                 Ok((conn, rd, rx)) => {
                                     log::trace!("Got new connection");
-                                    connections_cl.lock().await.insert(connection_id, conn);
+                                    let mut connections = connections_cl.lock().await;
+                                    if stopped_cl.load(Ordering::SeqCst) {
+                                        return;
+                                    }
+                                    connections.insert(connection_id, conn);
+                                    drop(connections);
                                     broker_cl
                                         .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                         .expect("Error sending connect message");
@@ -63,6 +78,7 @@ impl WebSocketServer {
             .add_handler(Box::new(WebSocketServer {
                 connections,
                 conn_thread,
+                stopped,
             }))
             .await?;
 
@@ -95,6 +111,10 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
                     self.conn_thread.abort();
+                    self.stopped.store(true, Ordering::SeqCst);
+                    for (_, mut conn) in self.connections.lock().await.drain() {
+                        conn.close();
+                    }
                     return vec![WSServerOut::Stopped];
                 }
             }
-- 
2.43.0


From ed9dad55e9f3d75dab785ca9e847417de926de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 43/59] fix: sockets of disconnected WebSocket clients were
 never closed

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index aaf88d0..1a4ba4d 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -62,7 +62,11 @@ impl WebSocketServer {
                                     broker_cl
                                         .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                         .expect("Error sending connect message");
-                                    WSConnection::loop_read(broker_cl, rd, rx, connection_id).await;
+                                    let reader =
+                                        WSConnection::loop_read(broker_cl, rd, rx, connection_id);
+                                    // Closes the socket, even if nothing is sent to it anymore.
+                                    reader.await.ok();
+                                    connections_cl.lock().await.remove(&connection_id);
                                 }
                                 Err(e) => log::error!("Error while getting connection: {:?}", e),
                             }
@@ -148,12 +152,12 @@ impl WSConnection {
         Ok((uwsc, rd, rx))
     }
 
-    async fn loop_read(
+    fn loop_read(
         mut broker: BrokerWSServer,
         mut ws: SplitStream<WebSocketStream<TcpStream>>,
         mut rx: oneshot::Receiver<bool>,
         id: usize,
-    ) {
+    ) -> JoinHandle<()> {
         tokio::spawn(async move {
             loop {
                 select! {
@@ -193,7 +197,7 @@ impl WSConnection {
                         }
                 }
             }
-        });
+        })
     }
 
     async fn send(&mut self, msg: String) -> anyhow::Result<()> {
-- 
2.43.0


From 2b1c728daae3edbf21af6390a1930d3c2318c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 44/59] fix: a connection closed by the WebSocket server was
 never set up again

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 36 ++++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..d27316d 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -33,23 +33,20 @@ impl WebSocketClient {
         tokio::spawn(async move {
             wait_ms(1000).await;
             loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
-                            broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
-                            return;
-                        }
+                match read.next().await {
+                    Some(Ok(msg)) if msg.is_text() => {
+                        broker_cl
+                            .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                            .expect("Failed to emit message");
+                    }
+                    Some(Ok(msg)) if !msg.is_close() => {}
+                    end => {
+                        log::warn!("Connection closed: {:?}", end);
+                        log::warn!("Trying to reconnect");
+                        broker_cl
+                            .emit_msg_in(WSClientIn::Connect)
+                            .expect("tried to reconnect");
+                        return;
                     }
                 }
             }
@@ -59,7 +56,10 @@ impl WebSocketClient {
     async fn connect_ws(&mut self) -> anyhow::Result<()> {
         if let Some(mut write) = self.write.take() {
             log::debug!("Reconnecting to websocket at {}", self.url);
-            write.close().await?;
+            // This fails if the connection is already closed.
+            if let Err(e) = write.close().await {
+                log::trace!("While closing old connection: {e}");
+            }
         } else {
             log::trace!("Connecting to websocket at {}", self.url);
         }
-- 
2.43.0


From e19c5bc9bff25d7979af37ae52ce4a1aa3472b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 45/59] fix: a disconnected WebSocket client connected again

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index d27316d..16118fb 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -2,7 +2,7 @@ use async_trait::async_trait;
 use futures::stream::SplitStream;
 use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
 use std::pin::Pin;
-use tokio::net::TcpStream;
+use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
@@ -13,6 +13,7 @@ pub struct WebSocketClient {
     url: String,
     write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
     broker: BrokerWSClient,
+    listener: Option<JoinHandle<()>>,
 }
 
 impl WebSocketClient {
@@ -21,6 +22,7 @@ impl WebSocketClient {
             url: url.to_string(),
             write: None,
             broker: Broker::new(),
+            listener: None,
         };
         let mut broker = wsb.broker.clone();
         broker.add_handler(Box::new(wsb)).await?;
@@ -30,7 +32,7 @@ impl WebSocketClient {
 
     fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
         let mut broker_cl = self.broker.clone();
-        tokio::spawn(async move {
+        self.listener = Some(tokio::spawn(async move {
             wait_ms(1000).await;
             loop {
                 match read.next().await {
@@ -50,10 +52,18 @@ impl WebSocketClient {
                     }
                 }
             }
-        });
+        }));
+    }
+
+    /// The end of a connection which isn't used anymore must not start a new one.
+    fn stop_listening(&mut self) {
+        if let Some(listener) = self.listener.take() {
+            listener.abort();
+        }
     }
 
     async fn connect_ws(&mut self) -> anyhow::Result<()> {
+        self.stop_listening();
         if let Some(mut write) = self.write.take() {
             log::debug!("Reconnecting to websocket at {}", self.url);
             // This fails if the connection is already closed.
@@ -96,6 +106,7 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                     }
                 }
                 WSClientIn::Disconnect => {
+                    self.stop_listening();
                     if let Some(mut write) = self.write.take() {
                         write.close().await.unwrap();
                     } else {
-- 
2.43.0


From c884d9daa972d1d625f17b0ed64ea176f903e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 46/59] fix: sending to a broken connection killed the
 WebSocket client

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 16118fb..b8f930d 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -1,13 +1,12 @@
 use async_trait::async_trait;
 use futures::stream::SplitStream;
-use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
-use std::pin::Pin;
+use futures::{stream::SplitSink, SinkExt, StreamExt};
 use tokio::{net::TcpStream, task::JoinHandle};
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
-use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError};
+use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 
 pub struct WebSocketClient {
     url: String,
@@ -88,16 +87,13 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
         for msg in msgs {
             match msg {
                 WSClientIn::Message(msg) => {
-                    if let Some(mut write) = self.write.as_mut() {
-                        Pin::new(&mut write)
-                            .start_send(tungstenite::Message::text(msg))
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("Error sending message");
-                        Pin::new(&mut write)
-                            .flush()
-                            .await
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("msg flush error");
+                    if let Some(write) = self.write.as_mut() {
+                        if let Err(e) = write.send(tungstenite::Message::text(msg)).await {
+                            log::warn!("Couldn't send message: {e}");
+                            if let Err(e) = self.connect_ws().await {
+                                log::error!("Couldn't connect: {e}");
+                            }
+                        }
                     } else {
                         log::warn!("Tried to write a message to a closed connection");
                         if let Err(e) = self.connect_ws().await {
@@ -108,7 +104,10 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                 WSClientIn::Disconnect => {
                     self.stop_listening();
                     if let Some(mut write) = self.write.take() {
-                        write.close().await.unwrap();
+                        // This fails if the connection is already closed.
+                        if let Err(e) = write.close().await {
+                            log::trace!("While closing connection: {e}");
+                        }
                     } else {
                         log::warn!("Trying to disconnect a disconnected connection");
                     }
-- 
2.43.0


From f8b0d07d8dbfff08d7ca8499fdd6fc199d06ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 47/59] fix: brokers which settle at the same time blocked each
 other forever

---
 flarch/src/broker.rs | 68 +++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..b37d964 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,21 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.settle_start(callers)?.recv().await;
+        Ok(())
+    }
+
+    // Asks the broker to settle, without waiting for it. The returned channel gets a message
+    // once it's done.
+    fn settle_start(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -563,20 +572,28 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
                 let type_str = self.type_str();
+                let mut pending = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()) {
+                            Ok(rx) => pending.extend(rx),
+                            Err(e) => log::error!("{}: While settling: {e:?}", type_str),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                // This must not block the broker: if two linked brokers settle at the same
+                // time, they would wait for each other forever.
+                spawn_local(async move {
+                    for mut rx in pending {
+                        rx.recv().await;
+                    }
+                    reply
+                        .send(true)
+                        .err()
+                        .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                });
                 return true;
             }
             InternMessage::Dropped => {
@@ -887,10 +904,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
-            Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            Subsystem::Translator(tr) => tr.settle(callers),
+            _ => Ok(None),
         }
     }
 }
@@ -919,7 +939,12 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    /// Asks the other broker to settle, and returns a channel which gets a message once
+    /// this is done.
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>>;
 }
 
 #[target_send()]
@@ -982,11 +1007,14 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
+    fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
+        if callers.contains(&self.broker.id) {
+            return Ok(None);
         }
-        Ok(())
+        Ok(Some(self.broker.settle_start(callers)?))
     }
 }
 
-- 
2.43.0


From ab996d6ba67e10615db6562d9ebd75e8ec40a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 48/59] fix: reading a Flo overtook storing it

---
 flmodules/src/dht_storage/broker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..994e63d 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -135,7 +135,11 @@ impl DHTStorage {
     }
 
     pub fn store_flo(&mut self, flo: Flo) -> anyhow::Result<()> {
-        Ok(self.broker.emit_msg_in(DHTStorageIn::StoreFlo(flo))?)
+        // Send it directly to the intern broker, like all other requests. Else a following
+        // 'get_flo' can overtake it.
+        Ok(self
+            .intern
+            .emit_msg_in(InternIn::Storage(DHTStorageIn::StoreFlo(flo)))?)
     }
 
     pub fn propagate(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From e61fc45e6612a7270af4aabe817d856c6afb9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 49/59] fix: resolving a badge which refers to itself never
 ended

---
 flmodules/src/dht_storage/broker.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 994e63d..2cdd7f0 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -6,7 +6,7 @@ use flarch::{
     tasks::wait_ms,
 };
 use flcrypto::{
-    access::{Condition, ConditionLink},
+    access::{BadgeID, Condition, ConditionLink},
     signer::{SignerError, Verifier},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
@@ -216,8 +216,19 @@ impl DHTStorage {
         Ok(self.broker.emit_msg_in(DHTStorageIn::SyncFromNeighbors)?)
     }
 
-    #[async_recursion(?Send)]
     pub async fn convert(&mut self, cl: &ConditionLink, rid: &RealmID) -> Condition {
+        self.convert_badges(cl, rid, &[]).await
+    }
+
+    // The badges are those which are being converted: a badge which refers to itself is
+    // not available.
+    #[async_recursion(?Send)]
+    async fn convert_badges(
+        &mut self,
+        cl: &ConditionLink,
+        rid: &RealmID,
+        badges: &[BadgeID],
+    ) -> Condition {
         match cl {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
@@ -225,6 +236,11 @@ impl DHTStorage {
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
+                let badge_id = version.get_id();
+                if badges.contains(&badge_id) {
+                    return Condition::NotAvailable;
+                }
+                let badges = [badges, &[badge_id]].concat();
                 if let Ok(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
@@ -235,7 +251,9 @@ impl DHTStorage {
                         flcrypto::access::Badge {
                             id: bl.id,
                             version: bl.version,
-                            condition: Box::new(self.convert(&bl.condition, rid).await),
+                            condition: Box::new(
+                                self.convert_badges(&bl.condition, rid, &badges).await,
+                            ),
                         },
                     )
                 } else {
@@ -245,7 +263,7 @@ impl DHTStorage {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(self.convert(cond, rid).await)
+                    conds.push(self.convert_badges(cond, rid, badges).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From c0586bd04d675d472084e0788c35b6bd5fbe2f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 50/59] fix: the path of a page which is its own ancestor
 overflowed the stack

---
 flmodules/src/dht_storage/realm_view.rs | 39 ++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..f693e06 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -263,23 +263,36 @@ impl RealmView {
     }
 
     pub fn get_full_path_id(&self, id: &BlobID) -> anyhow::Result<String> {
-        if let Some(page) = self.pages.storage.get(id) {
-            self.get_full_path_blob(page)
-        } else if let Some(tag) = self.tags.storage.get(id) {
-            self.get_full_path_blob(tag)
-        } else {
-            Err(anyhow::anyhow!("Didn't find page or tag with this ID"))
-        }
+        self.get_full_path(
+            self.get_blob_path_family(id)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?,
+        )
     }
 
     pub fn get_full_path_blob<T: BlobPathFamily>(&self, b: &T) -> anyhow::Result<String> {
-        let path = b
-            .get_path()
-            .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        self.get_full_path(b)
+    }
+
+    // Anybody can create pages which are their own ancestors, so make sure this ends.
+    fn get_full_path(&self, b: &dyn BlobPathFamily) -> anyhow::Result<String> {
+        let mut full_path = "".to_string();
+        let mut ancestors = HashSet::new();
+        let mut blob = b;
+        loop {
+            let path = blob
+                .get_path()
+                .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
+            full_path = format!("/{path}{full_path}");
+            let Some(parent) = blob.get_parents().into_iter().next() else {
+                return Ok(full_path);
+            };
+            blob = self
+                .get_blob_path_family(&parent)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+            if !ancestors.insert(parent) {
+                return Err(anyhow::anyhow!("The blob is its own ancestor"));
+            }
         }
-        Ok(format!("/{path}"))
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From a0076334db544a9dae013b30d54d905f61d8613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 51/59] fix: a page wasn't attached to a parent which needs
 only some of the signers

---
 flmodules/src/dht_storage/realm_view.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index f693e06..9c22f6a 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -164,10 +164,11 @@ impl RealmView {
                     log::warn!("Cannot update parent with this signer");
                 }
             } else {
+                let parent_signers = Self::accepted_signers(&cond, signers);
                 let parent_update = parent_page.edit_data_signers(
                     cond,
                     |page| page.add_child(fp.blob_id()),
-                    signers,
+                    &parent_signers,
                 )?;
                 self.store_page(parent_update)?;
             }
@@ -376,7 +377,8 @@ impl RealmView {
                     .convert(parent.cond(), &parent.realm_id())
                     .await;
                 if cond.can_signers(signers) {
-                    match parent.edit_data_signers(cond, &mut edit, signers) {
+                    let parent_signers = Self::accepted_signers(&cond, signers);
+                    match parent.edit_data_signers(cond, &mut edit, &parent_signers) {
                         Ok(new_parent) => {
                             self.store_page(new_parent.clone())
                                 .expect("Storing new parent");
@@ -388,6 +390,16 @@ impl RealmView {
         }
     }
 
+    // A page and its parent can have different conditions, and a signature must only be made
+    // by signers of the condition.
+    fn accepted_signers<'a>(cond: &Condition, signers: &[&'a Signer]) -> Vec<&'a Signer> {
+        signers
+            .iter()
+            .filter(|signer| cond.has_verifier(&signer.get_id()))
+            .cloned()
+            .collect()
+    }
+
     pub fn store_page(&mut self, page: FloBlobPage) -> anyhow::Result<()> {
         self.dht_storage.store_flo(page.clone().into())?;
         self.pages.storage.insert(page.blob_id(), page);
-- 
2.43.0


From 64b57001ce3d7346d16db6a0b982e99cddb970fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 52/59] fix: a header which isn't ASCII let the web proxy never
 answer

---
 flmodules/src/web_proxy/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..2e167be 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 3c0f0e2005193e0ef9af88fe023aecc942bd0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 53/59] fix: the parts of a page from the web proxy could be
 mixed up

---
 flmodules/src/web_proxy/core.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..fde09de 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,7 +68,16 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            // One task per request sends on the parts of the body, so that they keep their order.
+            let (tx_body, mut rx_body) = unbounded_channel();
+            spawn_local(async move {
+                while let Some(body) = rx_body.recv().await {
+                    if tx.send(body).await.is_err() {
+                        break;
+                    }
+                }
+            });
+            self.requests.insert(rnd, (node, tx_body));
             return Some(node);
         }
         None
@@ -83,8 +92,9 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        log::trace!("Nobody waits for the response of nonce {nonce}");
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
-- 
2.43.0


From daedf624455f1425333e1f70b7bdc8eab0933591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 54/59] fix: a page whose server failed half-way never ended in
 the web proxy

---
 flmodules/src/web_proxy/intern.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..3a19477 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -148,13 +148,14 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let msg = match chunk {
+                                Ok(body) => ResponseMessage::Body(body),
+                                Err(e) => ResponseMessage::Error(e.to_string()),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
                         }
-- 
2.43.0


From 58a6301a78f37459d9829f84b64523eeb399c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 55/59] fix: failed requests of the web proxy were kept forever

---
 flmodules/src/web_proxy/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index fde09de..bba7c42 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -100,7 +100,8 @@ impl WebProxyCore {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
-- 
2.43.0


From f9057aa24c17559319361219fddc4452777cc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 56/59] fix: a page from a disconnected node never ended in the
 web proxy

---
 flmodules/src/web_proxy/core.rs   | 5 +++++
 flmodules/src/web_proxy/intern.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index bba7c42..8d472da 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -56,6 +56,11 @@ impl WebProxyCore {
         self.nodes = nodes.remove_missing(&vec![self.our_id].into());
     }
 
+    /// Ends the requests to the nodes which aren't connected anymore, as nothing of them will arrive.
+    pub fn nodes_connected(&mut self, nodes: NodeIDs) {
+        self.requests.retain(|_, (node, _)| nodes.0.contains(node));
+    }
+
     pub fn get_node(&mut self) -> Option<NodeID> {
         if self.nodes.0.len() == 0 {
             return None;
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index 3a19477..aa9cefd 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -76,6 +76,10 @@ impl Intern {
     fn msg_router(&mut self, msg: RouterOut) -> Vec<InternOut> {
         match msg {
             RouterOut::NodeInfosConnected(node_infos) => self.node_list(node_infos),
+            RouterOut::NodeIDsConnected(nodes) => {
+                self.core.nodes_connected(nodes);
+                vec![]
+            }
             RouterOut::NetworkWrapperFromNetwork(u256, network_wrapper) => network_wrapper
                 .unwrap_yaml(MODULE_NAME)
                 .map(|msg| self.process_node_message(u256, msg))
-- 
2.43.0


From ffc93ba44a024e3f973c3d693560291244aaf269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 57/59] verification hook: WebRTC over the loopback interface
 (cfg fledger_verif)

---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index 9b31500..ed0172d 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -111,6 +111,10 @@ impl WebRTCConnectionSetupLibc {
         // with requests - so turn it off.
         let mut setting_engine = SettingEngine::default();
         setting_engine.set_ice_multicast_dns_mode(MulticastDnsMode::Disabled);
+        // Lets the verification harness connect in a sandbox without any network.
+        #[allow(unexpected_cfgs)]
+        #[cfg(fledger_verif)]
+        setting_engine.set_include_loopback_candidate(true);
 
         // Create the API object with the MediaEngine
         let api = APIBuilder::new()
-- 
2.43.0


From 3c39133abf006ebf484c269f976ebec95fe0bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 58/59] fix: a timer never ticked if the clock advanced while
 it was started

---
 flarch/src/tasks/libc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 8b5793f..e97e23f 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -47,7 +47,8 @@ impl Interval {
     /// dur.
     pub fn new(next_millis: i64, dur: Duration) -> Self {
         let next = Instant::now()
-            .checked_add(Duration::from_millis((next_millis - now()) as u64))
+            // The time can already be over, at the latest when 'now' advances before this line.
+            .checked_add(Duration::from_millis((next_millis - now()).max(0) as u64))
             .unwrap();
         Self {
             interval: time::interval_at(next, dur),
-- 
2.43.0


From 9e5590e473d265a730074565863f7df4fd29925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 59/59] verification hook: no warning

---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index ed0172d..6418c8e 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -89,6 +89,8 @@ impl WebRTCConnectionSetupLibc {
         Ok(broker)
     }
 
+    // For the hook below
+    #[allow(unexpected_cfgs)]
     async fn make_connection(
         connection_cfg: ConnectionConfig,
     ) -> anyhow::Result<RTCPeerConnection> {
@@ -112,7 +114,6 @@ impl WebRTCConnectionSetupLibc {
         let mut setting_engine = SettingEngine::default();
         setting_engine.set_ice_multicast_dns_mode(MulticastDnsMode::Disabled);
         // Lets the verification harness connect in a sandbox without any network.
-        #[allow(unexpected_cfgs)]
         #[cfg(fledger_verif)]
         setting_engine.set_include_loopback_candidate(true);
 
-- 
2.43.0

