From 12244c289c33b629efb913bbd22bb70e468fabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 1/8] fix: read back indexed values holding an empty keyword or
 data

An empty `Data` or `Pointer` is serialized as a single prefix byte but was
rejected upon deserialization, which made all searches for the keywords
indexing it and all compactions of their chains fail.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..f723c47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long, 0 given".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From c32cd3be6ff9b3c5b6ce85d20bc7a9ee581240bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 2/8] hook: small compaction batches under cfg(findex_verif)

---
 src/index/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..0fdd0e4 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1,5 +1,6 @@
 //! Easy to use `Index` interface for `Findex` that hides most cryptographic
 //! details.
+#![allow(unexpected_cfgs)]
 
 use std::{
     collections::{HashMap, HashSet},
@@ -344,7 +345,11 @@ impl<
     /// the memory used by the compact operation is:
     ///
     /// N * 32 + BS * EB + f * BS * LB
+    #[cfg(not(findex_verif))]
     const COMPACT_BATCH_SIZE: usize = 1_000_000;
+    /// Verification hook: small batches, see `RUSTFLAGS="--cfg findex_verif"`.
+    #[cfg(findex_verif)]
+    const COMPACT_BATCH_SIZE: usize = 4;
 
     /// Draw `n` tokens at random among the given `tokens`. The same token may
     /// be drawn several times, thus the number of tokens returned may be
-- 
2.43.0


From 28db62fbde89f4e07390856d87105c981c8bf6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 3/8] fix: do not recurse when walking the graph

Walking a long chain of pointers overflowed the stack, which aborts the
process.
---
 src/findex_graph/graph.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..e9eadd7 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,28 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
-
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
+        let mut res = HashSet::new();
+        // Pointers can be chained to any depth: do not use the call stack.
+        let mut to_visit = vec![entry];
+
+        while let Some(tag) = to_visit.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
 
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => to_visit.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 6744d686111a0125811867195149304aeda4b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 4/8] fix: round the number of compacted lines up

Truncating it let small indexes escape partial compactions forever: one
keyword at rate 1/2 gives 0.54 draws, hence none, at every call.
---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 0fdd0e4..499932d 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -384,7 +384,8 @@ impl<
         // [coupon collector's problem](https://en.wikipedia.org/wiki/Coupon_collector%27s_problem).
         let n_draws = length.mul_add(length.log2() + GAMMA, 0.5);
         // Split this number among the given number of compact operations.
-        (n_draws * compacting_rate) as usize
+        // Round up: truncating would draw nothing at all from small indexes.
+        (n_draws * compacting_rate).ceil() as usize
     }
 
     #[instrument(ret, err, skip_all)]
-- 
2.43.0


From 7fcd071d1c3cf718eefea3e9a9f9d7c0afe96cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 5/8] fix: refuse to merge entries colliding under the new key
 and label

Entries of the same keyword indexed under two labels get the same token when
compacted. Only one of them was written back and both were deleted.
---
 src/findex_mm/compact.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..5cc78c1 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -196,11 +196,17 @@ impl<
             for (token, entry) in continuation.entries {
                 old_entries.insert(token);
                 if remaining_entry_tokens.get(&token).is_some() {
-                    new_entries.insert(
+                    let old_value = new_entries.insert(
                         self.entry_table
                             .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                         self.entry_table.prepare(rng, new_key, entry.into())?,
                     );
+                    if old_value.is_some() {
+                        return Err(Error::Crypto(
+                            "several entries share the same token under the new key and label"
+                                .to_string(),
+                        ));
+                    }
                 }
             }
         }
-- 
2.43.0


From 7eaa38aef8c9c35391ae2c06b74870970b6d5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 6/8] fix: only revert what the failed compaction wrote

When the insertion of the new entries is refused because some tokens are
already used, deleting all of them destroyed the entries stored there.
---
 src/edx/mod.rs           |  2 +-
 src/findex_mm/compact.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..c98f8b8 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -39,7 +39,7 @@ pub trait DxEnc<const VALUE_LENGTH: usize> {
     type Error: std::error::Error;
 
     /// Fixed length encrypted value stored inside the encrypted dictionary.
-    type EncryptedValue: Debug + Sized + Clone;
+    type EncryptedValue: Debug + Sized + Clone + PartialEq;
 
     /// Backend storage.
     type Database: DbInterface<VALUE_LENGTH>;
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 5cc78c1..0a64e2e 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -211,7 +211,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -227,7 +226,7 @@ impl<
             )));
         };
 
-        let res = self.entry_table.insert(new_entries).await.map_err(|e| {
+        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
             Error::Crypto(format!(
                 "An error occurred during the `insert` operation, all modifications were reverted: {e}"
             ))
@@ -238,7 +237,17 @@ impl<
             self.entry_table.delete(old_entries).await?;
         } else {
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
+            // The insertion is also refused when some tokens are already used:
+            // only delete the values written by this operation.
+            let inserted_tokens = self
+                .entry_table
+                .get(new_entries.keys().copied().collect())
+                .await?
+                .into_iter()
+                .filter(|(token, value)| new_entries.get(token) == Some(value))
+                .map(|(token, _)| token)
+                .collect();
+            self.entry_table.delete(inserted_tokens).await?;
         }
 
         res
-- 
2.43.0


From cf3d292f3c64ba4a77ce979a7c2f57e104fe0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 7/8] fix: make the in-memory fetch atomic

It used to take the lock once per token, and could return a part only of a
concurrent modification.
---
 src/edx/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index c98f8b8..7330626 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -306,16 +306,13 @@ pub mod in_memory {
             &self,
             tokens: Tokens,
         ) -> Result<TokenWithEncryptedValueList<VALUE_LENGTH>, InMemoryDbError> {
+            // Keep the lock during the whole fetch to only return values that were stored
+            // together.
+            let edx = self.lock().expect("couldn't lock the table");
             Ok(TokenWithEncryptedValueList::from(
                 tokens
                     .into_iter()
-                    .filter_map(|token| {
-                        self.lock()
-                            .expect("couldn't lock the table")
-                            .get(&token)
-                            .cloned()
-                            .map(|v| (token, v))
-                    })
+                    .filter_map(|token| edx.get(&token).cloned().map(|v| (token, v)))
                     .collect::<Vec<_>>(),
             ))
         }
-- 
2.43.0


From 869f3a2c29e36226efdb091a1fa7560709fdc99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 8/8] fix: restore serialized in-memory stores

The reader skipped a size the writer no longer emitted, hence nothing written
could be read back. The announced length was wrong, and the number of lines
read was trusted for the allocation.
---
 src/edx/mod.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 7330626..f9f788e 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -242,8 +245,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = self.len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -254,6 +258,7 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -264,12 +269,19 @@ pub mod in_memory {
         fn read(
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
-            let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            let n = de.read_leb128_u64()?;
+            // Do not trust this number before having read the values.
+            let mut table = HashMap::new();
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
-                let _ = de.read_leb128_u64();
+                let length = de.read_leb128_u64()?;
+                if length != EncryptedValue::<VALUE_LENGTH>::LENGTH as u64 {
+                    return Err(InMemoryDbError(format!(
+                        "incorrect length for encrypted value: {length} bytes given, {} bytes \
+                         expected",
+                        EncryptedValue::<VALUE_LENGTH>::LENGTH
+                    )));
+                }
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                 let tag = de.read_array::<MAC_LENGTH>()?;
-- 
2.43.0

