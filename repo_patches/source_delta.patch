From 235a67113c0a82cd3da444ff6416ac27e6b50c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 1/6] fix: keep pre-existing entries when the entry insertion
 of a compaction fails

---
 src/findex_mm/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..af5fd9d 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -205,7 +205,6 @@ impl<
             }
         }
         let new_links_tokens = new_links.keys().copied().collect();
-        let new_entry_tokens = new_entries.keys().copied().collect();
 
         debug!(
             "Step 3: tries applying modifications, reverts modifications upon failure or removes \
@@ -231,8 +230,9 @@ impl<
             self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
         } else {
+            // No entry was inserted: entries stored under the new tokens (if any) were already
+            // there before this operation and should not be deleted.
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
         }
 
         res
-- 
2.43.0


From 627df84c58d617efd6cf681138faf113e09702a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 2/6] fix: write the in-memory database in the format it is
 read from

---
 src/edx/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..e40d3f3 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -166,7 +166,10 @@ pub mod in_memory {
     use async_trait::async_trait;
     use cosmian_crypto_core::CryptoCoreError;
     #[cfg(feature = "in_memory")]
-    use cosmian_crypto_core::{bytes_ser_de::Serializable, Nonce};
+    use cosmian_crypto_core::{
+        bytes_ser_de::{to_leb128_len, Serializable},
+        Nonce,
+    };
 
     use super::{
         DbInterface, Token, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
@@ -242,8 +245,9 @@ pub mod in_memory {
         type Error = InMemoryDbError;
 
         fn length(&self) -> usize {
-            (self.lock().expect("could not lock mutex").deref()).len()
-                * (Token::LENGTH + NONCE_LENGTH + MAC_LENGTH + VALUE_LENGTH)
+            let n = (self.lock().expect("could not lock mutex").deref()).len();
+            let value_length = EncryptedValue::<VALUE_LENGTH>::LENGTH;
+            to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)
         }
 
         fn write(
@@ -254,6 +258,7 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
@@ -268,8 +273,8 @@ pub mod in_memory {
             let mut table = HashMap::with_capacity(n);
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
-                // previous version used to write the size of the value.
-                let _ = de.read_leb128_u64();
+                // The size of the value is written for each value.
+                let _ = de.read_leb128_u64()?;
                 let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                 let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                 let tag = de.read_array::<MAC_LENGTH>()?;
-- 
2.43.0


From e56f918cdf1b82d678fac28cc06e2d1559ae925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 3/6] fix: do not allocate from an unchecked length when
 reading the in-memory database

---
 src/edx/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index e40d3f3..f49811e 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -270,7 +270,8 @@ pub mod in_memory {
             de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
         ) -> Result<Self, Self::Error> {
             let n = de.read_leb128_u64()? as usize;
-            let mut table = HashMap::with_capacity(n);
+            // Do not trust this number to allocate memory: it may be corrupted.
+            let mut table = HashMap::new();
             for _ in 0..n {
                 let k = de.read_array::<{ Token::LENGTH }>()?;
                 // The size of the value is written for each value.
-- 
2.43.0


From b3a275e9cc4d962875b652ab05bd562418ce9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 4/6] fix: accept the empty values which may be indexed

---
 src/findex_graph/structs.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..cde8089 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,11 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        // Keywords and data may be empty: only the leading byte is mandatory.
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From 80a6a42ca263a413c174ad1a271af3a3a0fcc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 5/6] fix: do not recurse along the paths of the graph when
 searching

---
 src/findex_graph/graph.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..492ba84 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,29 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
+    ///
+    /// Nodes to visit are stacked explicitly: paths may be arbitrarily long.
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
+        let mut res = HashSet::new();
+        let mut to_visit = vec![entry];
 
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
+        while let Some(tag) = to_visit.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
 
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => to_visit.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From 771faaa06e00d9f85d91e564cc2228db7ddc9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 6/6] fix: refuse to compact several entries into one instead
 of losing data

---
 src/findex_mm/compact.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index af5fd9d..3148f27 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -196,11 +196,16 @@ impl<
             for (token, entry) in continuation.entries {
                 old_entries.insert(token);
                 if remaining_entry_tokens.get(&token).is_some() {
-                    new_entries.insert(
+                    let previous = new_entries.insert(
                         self.entry_table
                             .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                         self.entry_table.prepare(rng, new_key, entry.into())?,
                     );
+                    if previous.is_some() {
+                        return Err(Error::Crypto(
+                            "several entries would be compacted into the same one".to_string(),
+                        ));
+                    }
                 }
             }
         }
-- 
2.43.0

