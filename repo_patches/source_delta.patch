From 9d3f82027955dd76ba4e2b0e30b6edca71c47670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 01/45] fix: hold the pact file lock while merging and never
 lose the stored pact when a write fails

write_pact released the lock between reading the existing pact and writing the
merged one (so the interactions another process wrote in between were lost),
created a new file without holding the lock, and left a truncated file behind
when a write failed.
---
 rust/pact_models/src/pact.rs | 86 +++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/rust/pact_models/src/pact.rs b/rust/pact_models/src/pact.rs
index f030933..6339e6f 100644
--- a/rust/pact_models/src/pact.rs
+++ b/rust/pact_models/src/pact.rs
@@ -9,6 +9,7 @@ use std::ops::Deref;
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
+#[cfg(not(target_family = "wasm"))] use std::sync::PoisonError;
 
 use anyhow::{anyhow, Context};
 use lazy_static::lazy_static;
@@ -144,15 +145,20 @@ pub fn read_pact(file: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + Ref
 #[cfg(not(target_family = "wasm"))]
 pub fn read_pact_from_file(file: &mut File, path: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
   let buf = with_read_lock_for_open_file(path, file, 3, &mut |f| {
-    let mut buf = String::new();
-    f.read_to_string(&mut buf)?;
+    let mut buf = vec![];
+    f.read_to_end(&mut buf)?;
     Ok(buf)
   })?;
-  let pact_json = serde_json::from_str(&buf)
+  pact_from_slice(&buf, path)
+}
+
+#[cfg(not(target_family = "wasm"))]
+fn pact_from_slice(buf: &[u8], path: &Path) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
+  let pact_json = serde_json::from_slice(buf)
     .context("Failed to parse Pact JSON")
     .map_err(|err| {
       error!("read_pact_from_file: {}", err);
-      debug!("read_pact_from_file: file contents = '{}'", buf);
+      debug!("read_pact_from_file: file contents = '{}'", String::from_utf8_lossy(buf));
       err
     })?;
   load_pact_from_json(&*path.to_string_lossy(), &pact_json)
@@ -222,37 +228,55 @@ pub fn write_pact(
   overwrite: bool
 ) -> anyhow::Result<()> {
   fs::create_dir_all(path.parent().unwrap())?;
-  let _lock = WRITE_LOCK.lock().unwrap();
-  if !overwrite && path.exists() {
-    debug!("Merging pact with file {:?}", path);
-    let mut f = fs::OpenOptions::new().read(true).write(true).open(&path)?;
-    let existing_pact = read_pact_from_file(&mut f, path)?;
-
-    if existing_pact.specification_version() < pact.specification_version() {
-      warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
-            existing_pact.specification_version());
-    }
+  let new_contents = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
 
-    let merged_pact = pact.merge(existing_pact.deref())?;
-    let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+  let _lock = WRITE_LOCK.lock().unwrap_or_else(PoisonError::into_inner);
+  let mut file = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
 
-    with_write_lock(path, &mut f, 3, &mut |f| {
-      f.set_len(0)?;
-      f.seek(SeekFrom::Start(0))?;
-      f.write_all(pact_json.as_bytes())?;
-      Ok(())
-    })
-  } else {
-    debug!("Writing new pact file to {:?}", path);
-    let result = serde_json::to_string_pretty(&pact.to_json(pact_spec)?)?;
-    let mut file = File::create(path)?;
-    with_write_lock(path, &mut file, 3, &mut |f| {
-      f.write_all(result.as_bytes())?;
-      Ok(())
-    })
-  }
+  // The lock must be held from reading the existing pact until the merged one has been written,
+  // otherwise the changes another process makes in between would be lost.
+  with_write_lock(path, &mut file, 3, &mut |f| {
+    let mut existing = vec![];
+    f.read_to_end(&mut existing)?;
+
+    if overwrite || existing.is_empty() {
+      debug!("Writing new pact file to {:?}", path);
+      replace_file_contents(f, &existing, new_contents.as_bytes())
+    } else {
+      debug!("Merging pact with file {:?}", path);
+      let existing_pact = pact_from_slice(&existing, path)?;
+
+      if existing_pact.specification_version() < pact.specification_version() {
+        warn!("Note: Existing pact is an older specification version ({:?}), and will be upgraded",
+              existing_pact.specification_version());
+      }
+
+      let merged_pact = pact.merge(existing_pact.deref())?;
+      let pact_json = serde_json::to_string_pretty(&merged_pact.to_json(pact_spec)?)?;
+      replace_file_contents(f, &existing, pact_json.as_bytes())
+    }
+  })
+}
+
+/// Replaces the contents of the file. If that fails (the disk could be full), puts the old contents
+/// back, so that they are not lost.
+#[cfg(not(target_family = "wasm"))]
+fn replace_file_contents(file: &mut File, old: &[u8], new: &[u8]) -> anyhow::Result<()> {
+  write_file_contents(file, new).map_err(|err| {
+    if let Err(restore_err) = write_file_contents(file, old) {
+      error!("Failed to restore the original file contents: {}", restore_err);
+    }
+    anyhow!(err)
+  })
 }
 
+#[cfg(not(target_family = "wasm"))]
+fn write_file_contents(file: &mut File, contents: &[u8]) -> std::io::Result<()> {
+  // Truncating comes last, so that there is no time at which the file is empty
+  file.seek(SeekFrom::Start(0))?;
+  file.write_all(contents)?;
+  file.set_len(contents.len() as u64)
+}
 
 /// Construct Metadata from JSON value
 pub fn parse_meta_data(pact_json: &Value) -> BTreeMap<String, BTreeMap<String, String>> {
-- 
2.43.0


From d2afa39177e8fe234bd67544926a57d85ec5db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 02/45] fix: merge pacts independently of the order of their
 interactions

The merges joined the lists of interactions as if they were sorted, so
interactions of unsorted pacts were duplicated or dropped.
---
 rust/pact_models/src/message_pact.rs    | 46 ++++++++------------
 rust/pact_models/src/provider_states.rs | 16 ++++++-
 rust/pact_models/src/sync_pact.rs       | 52 ++++++++++------------
 rust/pact_models/src/v4/pact.rs         | 57 +++++++++----------------
 4 files changed, 75 insertions(+), 96 deletions(-)

diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..ba7dd7d 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,8 +1,7 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs;
 use std::fs::File;
 use std::io::prelude::*;
@@ -11,8 +10,6 @@ use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, bail};
-use itertools::EitherOrBoth::{Both, Left, Right};
-use itertools::Itertools;
 use maplit::*;
 use serde_json::{json, Map, Value};
 use tracing::debug;
@@ -25,6 +22,7 @@ use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
+use crate::provider_states::merge_key;
 use crate::sync_pact::RequestResponsePact;
 use crate::v4::pact::V4Pact;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
@@ -305,35 +303,25 @@ impl ReadWritePact for MessagePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
-      let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
-        .map(|either| match either {
-          Left(i) => Ok(i.clone()),
-          Right(i) => i.as_message()
-            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of())),
-          Both(_, i) => i.as_message()
-            .ok_or(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", i.type_of()))
-        })
-        .collect();
-      let errors: Vec<String> = messages.iter()
-        .filter(|i| i.is_err())
-        .map(|i| i.as_ref().unwrap_err().to_string())
-        .collect();
+      let mut messages = vec![];
+      let mut errors = vec![];
+      for interaction in pact.interactions() {
+        match interaction.as_message() {
+          Some(message) => messages.push(message),
+          None => errors.push(format!("Can't convert interaction of type {} to V3 Asynchronous/Messages", interaction.type_of()))
+        }
+      }
+
       if errors.is_empty() {
+        let key = |m: &Message| merge_key(&m.description, &m.provider_states, PactSpecification::V3);
+        let existing = messages.iter().map(key).collect::<HashSet<_>>();
+        messages.extend(self.messages.iter().filter(|m| !existing.contains(&key(m))).cloned());
+        messages.sort_by_cached_key(key);
+
         Ok(Box::new(MessagePact {
           provider: self.provider.clone(),
           consumer: self.consumer.clone(),
-          messages: messages.iter()
-            .filter(|i| i.is_ok())
-            .map(|i| i.as_ref().unwrap().clone()).collect(),
+          messages,
           metadata: self.metadata.clone(),
           specification_version: self.specification_version
         }))
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..285d4fe 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -2,7 +2,7 @@
 //! See `https://docs.pact.io/getting_started/provider_states` for more info on provider states.
 
 use std::cmp::Eq;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::hash::{Hash, Hasher};
 
 use maplit::*;
@@ -97,6 +97,20 @@ impl ProviderState {
 
 }
 
+/// Key that identifies an interaction when pacts are merged. Versions before V3 only store the name
+/// of the first provider state.
+pub(crate) fn merge_key(description: &str, states: &[ProviderState], spec_version: PactSpecification) -> (String, Vec<(String, String)>) {
+  let states = if spec_version < PactSpecification::V3 {
+    states.iter().take(1).map(|state| (state.name.clone(), String::default())).collect()
+  } else {
+    states.iter().map(|state| {
+      let params = state.params.iter().collect::<BTreeMap<_, _>>();
+      (state.name.clone(), json!(params).to_string())
+    }).collect()
+  };
+  (description.to_string(), states)
+}
+
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..6d264e5 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,14 +1,11 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
-use itertools::Itertools;
 use maplit::{btreemap, hashset};
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -22,6 +19,7 @@ use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
+use crate::provider_states::merge_key;
 use crate::sync_interaction::RequestResponseInteraction;
 use crate::v4::pact::V4Pact;
 use crate::verify_json::{json_type_of, PactFileVerificationResult, PactJsonVerifier, ResultLevel};
@@ -299,36 +297,30 @@ impl ReadWritePact for RequestResponsePact {
         Err(anyhow!("Unable to merge pacts, as there were {} conflict(s) between the interactions. Please clean out your pact directory before running the tests.",
                     num_conflicts))
       } else {
-        let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
-          .map(|either| match either {
-            Left(i) => Ok(i.clone()),
-            Right(i) => i.as_request_response()
-              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of())),
-            Both(_, i) => i.as_request_response()
-              .ok_or(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", i.type_of()))
-          })
-          .collect();
-
-        let errors: Vec<String> = interactions.iter()
-          .filter(|i| i.is_err())
-          .map(|i| i.as_ref().unwrap_err().to_string())
-          .collect();
+        let mut interactions = vec![];
+        let mut errors = vec![];
+        for interaction in pact.interactions() {
+          match interaction.as_request_response() {
+            Some(interaction) => interactions.push(interaction),
+            None => errors.push(format!("Can't convert interaction of type {} to V3 Synchronous/HTTP", interaction.type_of()))
+          }
+        }
+
         if errors.is_empty() {
+          let spec_version = if pact.specification_version() < self.specification_version {
+            pact.specification_version()
+          } else {
+            self.specification_version
+          };
+          let key = |i: &RequestResponseInteraction| merge_key(&i.description, &i.provider_states, spec_version);
+          let existing = interactions.iter().map(key).collect::<HashSet<_>>();
+          interactions.extend(self.interactions.iter().filter(|i| !existing.contains(&key(i))).cloned());
+          interactions.sort_by_cached_key(key);
+
           Ok(Box::new(RequestResponsePact {
             provider: self.provider.clone(),
             consumer: self.consumer.clone(),
-            interactions: interactions.iter()
-              .filter(|i| i.is_ok())
-              .map(|i| i.as_ref().unwrap().clone()).collect(),
+            interactions,
             metadata: self.metadata.clone(),
             specification_version: self.specification_version.clone()
           }))
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..4ed11ae 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,13 +1,11 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -21,6 +19,7 @@ use crate::message_pact::MessagePact;
 use crate::pact::{Pact, ReadWritePact};
 use crate::PACT_RUST_VERSION;
 use crate::plugins::PluginData;
+use crate::provider_states::merge_key;
 use crate::sync_pact::RequestResponsePact;
 use crate::v4::interaction::{interactions_from_json, V4Interaction};
 use crate::v4::V4InteractionType;
@@ -357,43 +356,29 @@ impl ReadWritePact for V4Pact {
 
   fn merge(&self, other: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == other.consumer().name && self.provider.name == other.provider().name {
+      let key = |i: &(dyn V4Interaction + Send + Sync + RefUnwindSafe)|
+        (merge_key(&i.description(), &i.provider_states(), PactSpecification::V4), i.type_of());
+      let mut existing = other.interactions().iter()
+        .map(|i| i.as_v4().ok_or_else(|| anyhow!("Can't convert interaction of type {} to V4", i.type_of())))
+        .collect::<anyhow::Result<Vec<_>>>()?;
+      for interaction in &self.interactions {
+        let interaction_key = key(interaction.as_ref());
+        // Interactions with explicit keys are the same if the keys are equal
+        let same = existing.iter().position(|i| match (interaction.key(), i.key()) {
+          (Some(key_a), Some(key_b)) => key_a == key_b,
+          (_, _) => interaction_key == key(i.as_ref())
+        });
+        if let Some(index) = same {
+          existing.remove(index);
+        }
+      }
+
       let mut new_pact = V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
-        interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
+        interactions: self.interactions.iter().cloned()
+          .chain(existing)
+          .sorted_by_cached_key(|i| (key(i.as_ref()), i.key()))
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From 2bffe695dce2d976cc3104e631837830bead2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 03/45] fix: load the generators of V3 messages

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..abfffef 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -15,7 +15,7 @@ use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, json_to_string};
@@ -226,7 +226,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From 42e00a178c877a407f0db72c4d199d19538c05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 04/45] fix: query strings with control or non-ASCII characters
 no longer panic or get mangled on decoding, parameter names are encoded

---
 rust/pact_models/src/query_strings.rs | 40 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..1012f64 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -34,21 +34,21 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              push_char(&mut buffer, v1);
+              push_char(&mut buffer, v2);
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          push_char(&mut buffer, v1);
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      push_char(&mut buffer, c);
     }
 
     ch = chars.next();
@@ -63,6 +63,10 @@ pub fn decode_query(query: &str) -> Result<String, String> {
   }
 }
 
+fn push_char(buffer: &mut Vec<u8>, ch: char) {
+  buffer.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
+}
+
 /// Encodes the query string using a percent-encoding scheme
 pub fn encode_query(query: &str) -> String {
   query.chars().map(|ch| {
@@ -72,20 +76,24 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
-        .map(|u| format!("%{}{}", u.0, u.1))
-        .collect()
+      _ => {
+        let mut hex = format!("{:x}", ch as u32);
+        if hex.len() % 2 == 1 {
+          hex.insert(0, '0');
+        }
+        hex.chars().tuples().map(|(a, b)| format!("%{}{}", a, b)).collect()
+      }
     }
   }).collect()
 }
 
+/// Encodes the reserved characters of a query parameter name
+fn encode_name(name: &str) -> String {
+  name.chars()
+    .map(|ch| if ch.is_ascii() { encode_query(ch.encode_utf8(&mut [0; 4])) } else { ch.to_string() })
+    .collect()
+}
+
 /// Parses a query string into an optional map. The query parameter name will be mapped to
 /// a list of values. Where the query parameter is repeated, the order of the values will be
 /// preserved.
@@ -126,8 +134,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_name(&kv.0),
+          Some(s) => format!("{}={}", encode_name(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From 89a84ddbc090341e6b4675a424244a82a41415d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 05/45] fix: quote JSON string bodies correctly when loading
 them

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..81cc480 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -174,7 +174,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(json!(s).to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From 8f3f7decfa3ac9f3bce0eabf1b0b760ebe7b0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 06/45] fix: V2 matching rules keep dotted header names and
 body paths containing a dollar sign

---
 rust/pact_models/src/matchingrules/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..b97f3bc 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1025,7 +1025,7 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
       Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
         let mut path = DocPath::root();
@@ -1244,6 +1244,19 @@ pub struct MatchingRules {
   pub rules: HashMap<Category, MatchingRuleCategory>
 }
 
+/// Path for a V2 matching rule on a named value (header or query parameter). Names that are not a
+/// single path field (for instance because they contain dots) are kept as one field.
+fn v2_name_to_path(name: String) -> DocPath {
+  match DocPath::new(name.as_str()) {
+    Ok(path) if matches!(path.tokens().as_slice(), [PathToken::Root, PathToken::Field(field)] if *field == name) => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 impl MatchingRules {
 
   /// If the matching rules are empty (that is there are no rules assigned to any categories)
@@ -1354,7 +1367,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", v2_name_to_path(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1365,7 +1378,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          if let Some(name) = name { v2_name_to_path(name) } else { DocPath::empty() },
           v,
         )?;
       }
-- 
2.43.0


From 9b10dee159e8823fbb14313c5d1ce346a62ca50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 07/45] fix: hashes, keys, selected rules and generator order
 do not depend on the hash map order

---
 .../src/generators/form_urlencoded.rs         |  3 ++-
 rust/pact_models/src/generators/mod.rs        | 10 ++++-----
 rust/pact_models/src/matchingrules/mod.rs     | 21 ++++++++++++-------
 rust/pact_models/src/provider_states.rs       |  3 ++-
 rust/pact_models/src/v4/async_message.rs      |  3 ++-
 5 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..de67301 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -1,6 +1,7 @@
 
 use std::collections::HashMap;
 
+use itertools::Itertools;
 use serde_json::Value;
 use tracing::debug;
 use anyhow::{anyhow, Result};
@@ -25,7 +26,7 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     context: &HashMap<&str, Value>,
     matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> Result<OptionalBody, String> {
-    for (key, generator) in generators {
+    for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       if generator.corresponds_to_mode(mode) {
         debug!("Applying generator {:?} to key {}", generator, key);
         self.apply_key(key, generator, context, matcher);
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..2e069d9 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,7 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -691,7 +691,7 @@ pub fn apply_generators<F>(
   generators: &HashMap<DocPath, Generator>,
   closure: &mut F
 ) where F: FnMut(&DocPath, &Generator) {
-  for (key, value) in generators {
+  for (key, value) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
     if value.corresponds_to_mode(mode) {
       closure(&key, &value)
     }
@@ -1205,8 +1205,8 @@ impl GenerateValue<Value> for Generator {
             if let Some((variant, generators)) = matcher.find_matching_variant(value, variants) {
               debug!("Generating values for variant {} and value {}", variant, value);
               let mut handler = JsonHandler { value: value.clone() };
-              for (key, generator) in generators {
-                handler.apply_key(&key, &generator, context, matcher);
+              for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
+                handler.apply_key(key, generator, context, matcher);
               };
               debug!("Generated value {}", handler.value);
               result[index] = handler.value.clone();
@@ -1236,7 +1236,7 @@ impl ContentTypeHandler<Value> for JsonHandler {
     context: &HashMap<&str, Value>,
     matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> Result<OptionalBody, String> {
-    for (key, generator) in generators {
+    for (key, generator) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       if generator.corresponds_to_mode(mode) {
         debug!("Applying generator {:?} to key {}", generator, key);
         self.apply_key(key, generator, context, matcher);
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index b97f3bc..8cc2625 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -600,7 +600,7 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -994,7 +994,7 @@ impl MatchingRuleCategory {
   fn max_by_path(&self, path: &[&str]) -> RuleList {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
+      .max_by_key(|&(k, _, (w, t))| (w * t, k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
@@ -1073,14 +1073,18 @@ impl MatchingRuleCategory {
   /// Selects the best matcher for the given path by calculating a weighting for each one
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
-      Category::BODY | Category::METADATA => self.max_by_path(path),
+      Category::BODY | Category::CONTENTS | Category::METADATA => self.max_by_path(path),
       _ => self.resolve_matchers_for_path(path).as_rule_list()
     }
   }
 
-  /// Returns this category as a matching rule list. Returns a None if there are no rules
+  /// Returns this category as a matching rule list (the first one, ordered by path). Returns the
+  /// default rule list if there are no rules
   pub fn as_rule_list(&self) -> RuleList {
-    self.rules.values().next().cloned().unwrap_or_default()
+    self.rules.iter()
+      .min_by_key(|&(path, _)| path)
+      .map(|(_, rules)| rules.clone())
+      .unwrap_or_default()
   }
 
   /// Adds the rules to the category from the provided JSON
@@ -1469,7 +1473,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
@@ -1500,9 +1505,9 @@ impl Default for MatchingRules {
 
 impl Display for MatchingRules {
   fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-    for (category, rules) in &self.rules {
+    for (category, rules) in self.rules.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       write!(f, "{}:\n", category)?;
-      for (path, rule_list) in &rules.rules {
+      for (path, rule_list) in rules.rules.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
         if rule_list.is_empty() {
           write!(f, "    {} => []\n", path)?;
         } else if rule_list.rules.len() == 1 {
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 285d4fe..47b7d27 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::{BTreeMap, HashMap};
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -114,7 +115,7 @@ pub(crate) fn merge_key(description: &str, states: &[ProviderState], spec_versio
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..a478d76 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -447,7 +448,7 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter().sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
-- 
2.43.0


From 41e58e5a575255f05d5c1804b77c78ea06597edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 08/45] fix: convert provider state values without wrapping,
 truncating or panicking

---
 rust/pact_models/src/expression_parser.rs | 66 +++++++++++++++--------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..d40829e 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -102,11 +102,12 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          truncate_float(n, i64::MIN as f64, i64::MAX as f64).map(|n| json!(n as i64))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
-        Value::String(s) => s.parse::<usize>().map(|val| json!(val))
+        Value::String(s) => s.parse::<u64>().map(|val| json!(val))
+          .or_else(|_| s.parse::<i64>().map(|val| json!(val)))
           .map_err(|err| anyhow!("Number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
@@ -126,7 +127,7 @@ impl DataValue {
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         },
-        Value::String(s) => s.parse::<f64>().map(|val| json!(val))
+        Value::String(s) => parse_float(s).map(|val| json!(val))
           .map_err(|err| anyhow!("Floating point number can not be generated from '{}' - {}", self.wrapped, err)),
         Value::Array(_) | Value::Object(_) => Err(anyhow!("Number can not be generated from '{}'", self.wrapped))
       },
@@ -151,6 +152,26 @@ impl DataValue {
   }
 }
 
+/// Parses a finite floating point number
+fn parse_float(value: &str) -> anyhow::Result<f64> {
+  let float = value.parse::<f64>()?;
+  if float.is_finite() {
+    Ok(float)
+  } else {
+    Err(anyhow!("'{}' is not a finite number", value))
+  }
+}
+
+/// Integer part of the value, if it is in the range min..max
+fn truncate_float(value: f64, min: f64, max: f64) -> anyhow::Result<f64> {
+  let truncated = value.trunc();
+  if truncated >= min && truncated < max {
+    Ok(truncated)
+  } else {
+    Err(anyhow!("Integer can not be generated from '{}' as it is out of range", value))
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -163,11 +184,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        truncate_float(n, 0.0, 65536.0).map(|n| n as u16)
       } else {
         Ok(0)
       }
@@ -175,8 +196,9 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate_float(val, 0.0, 65536.0))
+          .map(|val| val as u16),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -198,9 +220,9 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n).map_err(|err| anyhow!("u64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        truncate_float(n, 0.0, u64::MAX as f64).map(|n| n as u64)
       } else {
         Ok(0)
       }
@@ -208,8 +230,9 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate_float(val, 0.0, u64::MAX as f64))
+          .map(|val| val as u64),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -228,12 +251,12 @@ impl TryFrom<DataValue> for i64 {
       } else {
         Ok(0)
       }
-      Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
-      } else if let Some(n) = n.as_i64() {
+      Value::Number(n) => if let Some(n) = n.as_i64() {
         Ok(n)
+      } else if let Some(n) = n.as_u64() {
+        i64::try_from(n).map_err(|err| anyhow!("i64 can not be generated from {} - {}", n, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        truncate_float(n, i64::MIN as f64, i64::MAX as f64).map(|n| n as i64)
       } else {
         Ok(0)
       }
@@ -241,8 +264,9 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(|val| truncate_float(val, i64::MIN as f64, i64::MAX as f64))
+          .map(|val| val as i64),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
@@ -274,7 +298,7 @@ impl TryFrom<DataValue> for f64 {
         DataType::INTEGER => s.parse::<i64>()
           .map(|val| val as f64)
           .map_err(|err| anyhow!("f64 can not be generated from '{}' - {}", s, err)),
-        DataType::DECIMAL | DataType::FLOAT | DataType::RAW | DataType::STRING => s.parse::<f64>()
+        DataType::DECIMAL | DataType::FLOAT | DataType::RAW | DataType::STRING => parse_float(s)
           .map_err(|err| anyhow!("f64 can not be generated from '{}' - {}", s, err)),
         _ => Err(anyhow!("f64 can not be generated from {}", value.wrapped))
       },
@@ -310,7 +334,7 @@ impl Display for DataValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     match self.data_type {
       DataType::STRING | DataType::RAW => write!(f, "{}", json_to_string(&self.wrapped)),
-      DataType::INTEGER => match i64::try_from(self.clone()) {
+      DataType::INTEGER => match self.as_json() {
         Ok(v) => write!(f, "{}", v),
         Err(err) => {
           error!("Failed to convert value = {}", err);
@@ -382,7 +406,7 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}').map(|end| index + end)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 06704541283b9c22cb46fb050ec0d09f93a4f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 09/45] fix: generators produce the full range of values and
 report unsatisfiable configurations instead of panicking

---
 rust/pact_models/src/generators/mod.rs | 70 ++++++++++++++++++--------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 2e069d9..5278e01 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 use std::convert::TryFrom;
-use std::fmt::{Debug, Display, Formatter};
+use std::fmt::{Debug, Display, Formatter, Write};
 use std::hash::{Hash, Hasher};
 use std::mem;
 use std::str::FromStr;
@@ -816,7 +816,17 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  let chars: Vec<char> = HEX_CHARSET.chars().collect();
+  (0..digits).map(|_| *chars.choose(&mut rnd).unwrap()).collect()
+}
+
+/// Random integer between min and max (both inclusive)
+fn generate_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min > max {
+    Err(anyhow!("Can not generate a random integer, the minimum value {} is greater than the maximum value {}", min, max))
+  } else {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  }
 }
 
 impl GenerateValue<u16> for Generator {
@@ -827,7 +837,7 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      &Generator::RandomInt(min, max) => generate_int(min.max(0), max.min(u16::MAX as i32)).map(|val| val as u16),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -853,24 +863,36 @@ pub fn generate_ascii_string(size: usize) -> String {
 }
 
 fn strip_anchors(regex: &str) -> &str {
-  regex
-    .strip_prefix('^').unwrap_or(regex)
-    .strip_suffix('$').unwrap_or(regex)
+  let regex = regex.strip_prefix('^').unwrap_or(regex);
+  match regex.strip_suffix('$') {
+    // A dollar sign preceded by an odd number of backslashes is an escaped one, and not an anchor
+    Some(stripped) if stripped.chars().rev().take_while(|ch| *ch == '\\').count() % 2 == 0 => stripped,
+    _ => regex
+  }
 }
 
 #[cfg(not(target_family = "wasm"))]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
-  }).to_string()
+fn first_group<'t>(caps: &Captures<'t>) -> Option<&'t str> {
+  caps.at(1)
 }
 
 #[cfg(target_family = "wasm")]
-fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
-  re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
-  }).to_string()
+fn first_group<'t>(caps: &Captures<'t>) -> Option<&'t str> {
+  caps.get(1).map(|m| m.as_str())
+}
+
+fn replace_with_regex(example: &String, url: String, re: Regex) -> anyhow::Result<String> {
+  let mut group_found = true;
+  let result = re.replace(example, |caps: &Captures| {
+    let path = first_group(caps);
+    group_found &= path.is_some();
+    format!("{}{}", url, path.unwrap_or_default())
+  }).to_string();
+  if group_found {
+    Ok(result)
+  } else {
+    Err(anyhow!("MockServerURL: the regular expression does not capture a group to append to the mock server URL"))
+  }
 }
 
 impl GenerateValue<String> for Generator {
@@ -882,7 +904,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => generate_int(*min, *max).map(|val| val.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -996,15 +1018,21 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(|val| {
+          let mut generated = String::new();
+          write!(generated, "{}", val)
+            .map(|_| generated)
+            .map_err(|_| anyhow!("Could not generate a value from {} as {:?}", val.wrapped, val.data_type))
+        })
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
         match mock_server_details.as_object() {
           Some(mock_server_details) => {
-            match get_field_as_string("url", mock_server_details) {
+            match get_field_as_string("url", mock_server_details)
+              .or_else(|| get_field_as_string("href", mock_server_details)) {
               Some(url) => match Regex::new(regex) {
-                Ok(re) => Ok(replace_with_regex(example, url, re)),
+                Ok(re) => replace_with_regex(example, url, re),
                 Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
               },
               None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server 'url' in the test context {:?}", context))
@@ -1043,7 +1071,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = generate_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
@@ -1186,7 +1214,7 @@ impl GenerateValue<Value> for Generator {
               match get_field_as_string("url", mock_server_details)
                 .or_else(|| get_field_as_string("href", mock_server_details)) {
                 Some(url) => match Regex::new(regex) {
-                  Ok(re) => Ok(Value::String(replace_with_regex(example, url, re))),
+                  Ok(re) => replace_with_regex(example, url, re).map(Value::String),
                   Err(err) => Err(anyhow!("MockServerURL: Failed to generate value: {}", err))
                 },
                 None => Err(anyhow!("MockServerURL: can not generate a value as there is no mock server URL in the test context"))
-- 
2.43.0


From d138f84bac85f066a199f883105e053db9ba7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 10/45] fix: date and time expressions follow the calendar,
 malformed and overflowing ones are reported as errors

---
 .../src/generators/date_expression_parser.rs  |  18 +-
 .../src/generators/datetime_expressions.rs    | 240 +++++++++---------
 .../src/generators/time_expression_parser.rs  |  28 +-
 3 files changed, 137 insertions(+), 149 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..bbcc529 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,7 +170,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = lex.next() {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -186,7 +187,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = lex.next() {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -200,7 +202,8 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = lex.next() {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
         } else {
@@ -230,12 +233,9 @@ fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpr
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
-    }
+  while let Some(token) = lex.next() {
+    let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
+    results.push(adjustment(lex, exp, &token)?);
   }
 
   Ok(results)
diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..0e5a49b 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -56,13 +56,13 @@
 //! | 'next week @ next hour'                            | '2000-01-08T11:00Z' |
 //! | 'last month @ last hour'                           | '1999-12-01T09:00Z' |
 
-use std::ops::{Add, Sub};
+use std::convert::TryFrom;
 use std::str::from_utf8;
 
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, LocalResult, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -173,49 +173,36 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
     Ok(dt.clone())
   } else {
     let result = parse_time_expression(expression)?;
-    let time = dt.with_minute(0)
-      .map(|t| t.with_second(0))
-      .flatten()
-      .map(|t| t.with_nanosecond(0))
-      .flatten()
-      .unwrap_or(dt.clone());
+    let at_hour = |hour: u8| {
+      NaiveTime::from_hms_opt(hour as u32, 0, 0)
+        .and_then(|time| to_local_time(dt, dt.naive_local().date().and_time(time)))
+        .ok_or_else(|| anyhow!("Time {} o'clock overflows the bounds", hour))
+    };
     let base_time = match result.base {
       TimeBase::Now => dt.clone(),
-      TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
-      TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
-      TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Midnight => at_hour(0)?,
+      TimeBase::Noon => at_hour(12)?,
+      TimeBase::Am { hour } => at_hour(hour)?,
+      TimeBase::Pm { hour } => at_hour(afternoon(hour))?,
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        at_hour(afternoon(hour))?
       } else {
-        time.with_hour(hour as u32).unwrap_or(dt.clone())
+        at_hour(hour)?
       }
     };
 
-    let mut date_time = base_time.clone();
+    let mut date_time = base_time;
     for adjustment in &result.adjustments {
-      date_time = match adjustment.operation {
-        Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        },
-        Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        }
-      }
+      let duration = adjustment_value(adjustment).and_then(|value| match adjustment.adjustment_type {
+        TimeOffsetType::HOUR => Duration::try_hours(value),
+        TimeOffsetType::MINUTE => Duration::try_minutes(value),
+        TimeOffsetType::SECOND => Duration::try_seconds(value),
+        TimeOffsetType::MILLISECOND => Duration::try_milliseconds(value)
+      });
+      date_time = duration.and_then(|duration| match adjustment.operation {
+        Operation::PLUS => date_time.checked_add_signed(duration),
+        Operation::MINUS => date_time.checked_sub_signed(duration)
+      }).ok_or_else(|| overflow(adjustment))?;
     }
 
     Ok(date_time)
@@ -245,18 +232,54 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
-fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
-  Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
+fn overflow<T>(adjustment: &Adjustment<T>) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", adjustment.value)
+}
+
+fn adjustment_value<T>(adjustment: &Adjustment<T>) -> Option<i64> {
+  i64::try_from(adjustment.value).ok()
+}
+
+/// 24 hour clock value of an hour after noon (where 12 o'clock is noon)
+fn afternoon(hour: u8) -> u8 {
+  if hour < 12 { hour + 12 } else { hour }
+}
+
+/// Returns the instant that has the given local time in the time zone of the date-time. If there
+/// are two (the clocks were turned back), prefers the one with the same offset. If there is none
+/// (the clocks were turned forward), moves the local time forward by the length of the gap.
+fn to_local_time<Tz: TimeZone>(date: &DateTime<Tz>, local: NaiveDateTime) -> Option<DateTime<Tz>> {
+  let zone = date.timezone();
+  match zone.from_local_datetime(&local) {
+    LocalResult::Single(date_time) => Some(date_time),
+    LocalResult::Ambiguous(earliest, latest) => if latest.offset().fix() == date.offset().fix() {
+      Some(latest)
+    } else {
+      Some(earliest)
     },
+    LocalResult::None => {
+      let before_gap = local.checked_sub_signed(Duration::try_days(1)?)?;
+      let offset = zone.offset_from_local_datetime(&before_gap).earliest()?;
+      Some(zone.from_utc_datetime(&local.checked_sub_offset(offset.fix())?))
+    }
+  }
+}
+
+/// Changes the calendar date (keeping the local time)
+fn adjust_date<Tz: TimeZone>(
+  date: &DateTime<Tz>,
+  adjust: impl FnOnce(NaiveDate) -> Option<NaiveDate>
+) -> Option<DateTime<Tz>> {
+  let local = date.naive_local();
+  adjust(local.date()).and_then(|adjusted| to_local_time(date, adjusted.and_time(local.time())))
+}
+
+fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
+  adjust_date(date, |date| match adjustment.adjustment_type {
+    DateOffsetType::DAY => add_days(date, adjustment_value(adjustment)?),
+    DateOffsetType::WEEK => add_days(date, adjustment_value(adjustment)?.checked_mul(7)?),
+    DateOffsetType::MONTH => add_months(date, adjustment_value(adjustment)?),
+    DateOffsetType::YEAR => add_months(date, adjustment_value(adjustment)?.checked_mul(12)?),
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -276,91 +299,65 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::OCT => adjust_date_up_to(date, |d| d.month() == 10),
     DateOffsetType::NOV => adjust_date_up_to(date, |d| d.month() == 11),
     DateOffsetType::DEC => adjust_date_up_to(date, |d| d.month() == 12)
-  })
+  }).ok_or_else(|| overflow(adjustment))
 }
 
 /// Rolls the date forward one day at a time until the predicate is true
-fn adjust_date_up_to<Tz: TimeZone>(
-  date: &DateTime<Tz>,
-  predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
+fn adjust_date_up_to(date: NaiveDate, predicate: fn(&NaiveDate) -> bool) -> Option<NaiveDate> {
+  let mut date = date;
 
   while predicate(&date) {
-    date = date.add(one_day_duration);
+    date = date.succ_opt()?;
   }
 
   while !predicate(&date) {
-    date = date.add(one_day_duration);
+    date = date.succ_opt()?;
   }
 
-  date
+  Some(date)
 }
 
 /// Rolls the date backwards one day at a time until the predicate is true
-fn adjust_date_down_to<Tz: TimeZone>(
-  date: &DateTime<Tz>,
-  predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow;
+fn adjust_date_down_to(date: NaiveDate, predicate: fn(&NaiveDate) -> bool) -> Option<NaiveDate> {
+  let mut date = date;
 
   while predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = date.pred_opt()?;
   }
 
   while !predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = date.pred_opt()?;
   }
 
-  date
+  Some(date)
 }
 
-/// Rolls the month by the adjustment one day at a time
-fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+fn add_days(date: NaiveDate, days: i64) -> Option<NaiveDate> {
+  date.checked_add_signed(Duration::try_days(days)?)
+}
+
+/// Adds the number of months to the date. If the resulting month does not have that day, the last
+/// day of the month is used.
+fn add_months(date: NaiveDate, months: i64) -> Option<NaiveDate> {
+  let count = Months::new(u32::try_from(months.unsigned_abs()).ok()?);
+  if months < 0 {
+    date.checked_sub_months(count)
   } else {
-    date
+    date.checked_add_months(count)
   }
 }
 
+#[cfg(test)]
+fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
+  adjust_date(date, |date| add_months(date, months)).unwrap()
+}
+
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
-  Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+  adjust_date(date, |date| match adjustment.adjustment_type {
+    DateOffsetType::DAY => add_days(date, -adjustment_value(adjustment)?),
+    DateOffsetType::WEEK => add_days(date, adjustment_value(adjustment)?.checked_mul(-7)?),
+    DateOffsetType::MONTH => add_months(date, -adjustment_value(adjustment)?),
+    DateOffsetType::YEAR => add_months(date, adjustment_value(adjustment)?.checked_mul(-12)?),
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
@@ -368,27 +365,26 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::FRIDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Fri),
     DateOffsetType::SATURDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sat),
     DateOffsetType::SUNDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sun),
-    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12).with_day(1).unwrap_or_else(|| date.clone())
-  })
+    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1).and_then(|d| d.with_day(1)),
+    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2).and_then(|d| d.with_day(1)),
+    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3).and_then(|d| d.with_day(1)),
+    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4).and_then(|d| d.with_day(1)),
+    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5).and_then(|d| d.with_day(1)),
+    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6).and_then(|d| d.with_day(1)),
+    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7).and_then(|d| d.with_day(1)),
+    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8).and_then(|d| d.with_day(1)),
+    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9).and_then(|d| d.with_day(1)),
+    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10).and_then(|d| d.with_day(1)),
+    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11).and_then(|d| d.with_day(1)),
+    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12).and_then(|d| d.with_day(1))
+  }).ok_or_else(|| overflow(adjustment))
 }
 
 fn base_date<Tz: TimeZone>(result: &ParsedDateExpression, base: &DateTime<Tz>) -> DateTime<Tz> {
   match result.base {
     DateBase::NOW | DateBase::TODAY => base.clone(),
-    // Ok to unwrap, 1 will never overflow bounds
-    DateBase::YESTERDAY => base.clone().sub(Duration::try_days(1).unwrap()),
-    DateBase::TOMORROW => base.clone().add(Duration::try_days(1).unwrap())
+    DateBase::YESTERDAY => adjust_date(base, |date| date.pred_opt()).unwrap_or_else(|| base.clone()),
+    DateBase::TOMORROW => adjust_date(base, |date| date.succ_opt()).unwrap_or_else(|| base.clone())
   }
 }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..fd037f0 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,7 +103,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
+      if let Some(token) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -121,7 +122,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = lex.next() {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -136,7 +138,8 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
+      if let Some(token) = lex.next() {
+        let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
         if token.is_op() {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
@@ -227,21 +230,10 @@ fn adjustments(
 ) -> anyhow::Result<Vec<Adjustment<TimeOffsetType>>> {
   let mut results = vec![];
 
-  let mut token = token.clone();
-  loop {
-    if token.is_op() {
-      let adj = adjustment(lex, exp, token)?;
-      results.push(adj);
-    } else {
-      break
-    }
-
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
-    }
+  results.push(adjustment(lex, exp, token)?);
+  while let Some(token) = lex.next() {
+    let token = token.map_err(|_| error(exp, "no more tokens", Some(lex.span().clone())))?;
+    results.push(adjustment(lex, exp, token)?);
   }
 
   Ok(results)
-- 
2.43.0


From 8e1c10fb02e7e888e7879d4f7bf5ec58756b9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 11/45] fix: generated dates and times are the value of their
 format and valid in it

---
 rust/pact_models/src/generators/mod.rs |  23 ++---
 rust/pact_models/src/time_utils.rs     | 128 +++++++++++++++++++++----
 2 files changed, 119 insertions(+), 32 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 5278e01..27d122e 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -28,7 +28,7 @@ use crate::json_utils::{get_field_as_string, json_to_string, JsonToNum, resolve_
 use crate::matchingrules::{Category, MatchingRuleCategory};
 use crate::PactSpecification;
 use crate::path_exp::DocPath;
-#[cfg(feature = "datetime")] use crate::time_utils::{parse_pattern, to_chrono_pattern};
+#[cfg(feature = "datetime")] use crate::time_utils::{format_datetime, parse_pattern};
 
 #[cfg(feature = "datetime")] pub mod datetime_expressions;
 #[cfg(feature = "datetime")] mod date_expression_parser;
@@ -942,10 +942,7 @@ impl GenerateValue<String> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
-              },
+              Ok(tokens) => format_datetime(&date, &tokens).map_err(|err| anyhow!("Could not generate a date from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Date format {} is not valid - {}", pattern, err))
@@ -969,7 +966,7 @@ impl GenerateValue<String> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => format_datetime(&time, &tokens).map_err(|err| anyhow!("Could not generate a time from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Time format {} is not valid - {}", pattern, err))
@@ -993,7 +990,7 @@ impl GenerateValue<String> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(date_time.format(&to_chrono_pattern(&tokens)).to_string()),
+              Ok(tokens) => format_datetime(&date_time, &tokens).map_err(|err| anyhow!("Could not generate a date-time from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("DateTime format {} is not valid - {}", pattern, err))
@@ -1125,10 +1122,8 @@ impl GenerateValue<Value> for Generator {
           let date = execute_date_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
-              },
+              Ok(tokens) => format_datetime(&date, &tokens).map(|value| json!(value))
+                .map_err(|err| anyhow!("Could not generate a date from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date from {} - {}", pattern, err))
@@ -1152,7 +1147,8 @@ impl GenerateValue<Value> for Generator {
           let time = execute_time_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => format_datetime(&time, &tokens).map(|value| json!(value))
+                .map_err(|err| anyhow!("Could not generate a time from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("Time format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random time from {} - {}", pattern, err))
@@ -1176,7 +1172,8 @@ impl GenerateValue<Value> for Generator {
           let date_time = execute_datetime_expression(&base, _exp.clone().unwrap_or_default().as_str())?;
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
-              Ok(tokens) => Ok(json!(date_time.format(&to_chrono_pattern(&tokens)).to_string())),
+              Ok(tokens) => format_datetime(&date_time, &tokens).map(|value| json!(value))
+                .map_err(|err| anyhow!("Could not generate a date-time from {} - {}", pattern, err)),
               Err(err) => {
                 warn!("DateTime format {} is not valid - {}", pattern, err);
                 Err(anyhow!("Could not generate a random date-time from {} - {}", pattern, err))
diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..1480969 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -38,7 +38,8 @@
 use std::fmt::{Display, Formatter};
 
 use anyhow::anyhow;
-use chrono::Local;
+use chrono::{DateTime, Local, Offset, TimeZone};
+use chrono::{Datelike, Timelike};
 use gregorian::Month;
 use itertools::Itertools;
 use nom::branch::alt;
@@ -420,7 +421,9 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s)
+  // Only two pattern letters give a reduced form, otherwise the count is the minimum number of digits
+  let max = if count == 1 || count == 3 { 4 } else { count };
+  take_while_m_n(1, max, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
@@ -574,16 +577,22 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
+  // there are at most count digits, so every value is a fraction of a second
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
+}
+
+fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "offset hour".into(), 0, 18) {
       Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
     }
   })
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((is_a("+-"), offset_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -591,23 +600,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(is_a("+-"), tuple((offset_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(is_a("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(is_a("+-"), tuple((offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(is_a("+-"), tuple((offset_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(is_a("+-"), tuple((offset_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -652,7 +661,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(is_a("+-"), tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -673,7 +682,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), offset_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -681,7 +690,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
@@ -846,7 +855,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+      let year = year.parse::<i16>().map_err(|err| format!("'{}' is not a supported year: {}", year, err))?;
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
         let month = month_value(month_str).unwrap().with_year(year);
@@ -861,7 +870,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
       }
     } else if let Some((_, month_str)) = month {
       // should be safe to unwrap here, as the value should have already been validated
-      let month = month_value(month_str).unwrap().with_year(2001);
+      // the year is not known, so it could be a leap year
+      let month = month_value(month_str).unwrap().with_year(2000);
       if day > month.total_days() {
         Err(format!("'{}' is not a valid day for month '{}'", day, month_str))
       } else {
@@ -928,15 +938,95 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
   buffer
 }
 
+/// Formats the date-time using the pattern tokens. An error is returned for the tokens that have no
+/// value for a date-time.
+pub fn format_datetime<Tz: TimeZone>(
+  date_time: &DateTime<Tz>,
+  tokens: &[DateTimePatternToken]
+) -> Result<String, String>
+  where Tz::Offset: Display
+{
+  let mut buffer = String::new();
+
+  for token in tokens {
+    let value = match token {
+      DateTimePatternToken::DayOfWeek(d) if *d > 2 => date_time.format(if *d > 3 { "%A" } else { "%a" }).to_string(),
+      DateTimePatternToken::Hour24 => format!("{:02}", if date_time.hour() == 0 { 24 } else { date_time.hour() }),
+      DateTimePatternToken::Hour12ZeroBased => format!("{:02}", date_time.hour() % 12),
+      DateTimePatternToken::Millisecond(d) => second_fraction_value(date_time.nanosecond() % 1_000_000_000, *d),
+      DateTimePatternToken::TimezoneOffset(4) => offset_gmt_value(date_time, true),
+      DateTimePatternToken::TimezoneOffset(d) if *d > 4 => offset_value(date_time, 3),
+      DateTimePatternToken::TimezoneOffsetX(d) => offset_value(date_time, *d),
+      DateTimePatternToken::TimezoneOffsetXZZero(d) => if date_time.offset().fix().local_minus_utc() == 0 {
+        "Z".to_string()
+      } else {
+        offset_value(date_time, *d)
+      },
+      DateTimePatternToken::TimezoneOffsetGmt(d) => offset_gmt_value(date_time, *d > 3),
+      DateTimePatternToken::QuarterOfYear(d) => quarter_value(date_time.month0() / 3, *d),
+      DateTimePatternToken::QuarterOfYearNum(d) => quarter_value(date_time.month0() / 3, *d),
+      DateTimePatternToken::MillisecondOfDay => (nanoseconds_of_day(date_time) / 1_000_000).to_string(),
+      DateTimePatternToken::NanosecondOfDay => nanoseconds_of_day(date_time).to_string(),
+      DateTimePatternToken::WeekInMonth(_) => return Err(format!("{:?} is not supported", token)),
+      _ => date_time.format(to_chrono_pattern(std::slice::from_ref(token)).as_str()).to_string()
+    };
+    buffer.push_str(value.as_str());
+  }
+
+  Ok(buffer)
+}
+
+fn second_fraction_value(nanoseconds: u32, digits: usize) -> String {
+  let mut fraction = format!("{:09}", nanoseconds);
+  fraction.truncate(digits);
+  format!("{:0<width$}", fraction, width = digits)
+}
+
+fn nanoseconds_of_day<Tz: TimeZone>(date_time: &DateTime<Tz>) -> u64 {
+  let time = date_time.time();
+  time.num_seconds_from_midnight() as u64 * 1_000_000_000 + time.nanosecond() as u64
+}
+
+fn offset_value<Tz: TimeZone>(date_time: &DateTime<Tz>, d: usize) -> String {
+  let offset = date_time.offset().fix().local_minus_utc();
+  let sign = if offset < 0 { '-' } else { '+' };
+  let (hours, minutes) = (offset.abs() / 3600, offset.abs() / 60 % 60);
+  match d {
+    1 if minutes == 0 => format!("{}{:02}", sign, hours),
+    3 | 5 => format!("{}{:02}:{:02}", sign, hours, minutes),
+    _ => format!("{}{:02}{:02}", sign, hours, minutes)
+  }
+}
+
+fn offset_gmt_value<Tz: TimeZone>(date_time: &DateTime<Tz>, full: bool) -> String {
+  let offset = date_time.offset().fix().local_minus_utc();
+  let sign = if offset < 0 { '-' } else { '+' };
+  let (hours, minutes) = (offset.abs() / 3600, offset.abs() / 60 % 60);
+  if full {
+    format!("GMT{}{:02}:{:02}", sign, hours, minutes)
+  } else if minutes == 0 {
+    format!("GMT{}{}", sign, hours)
+  } else {
+    format!("GMT{}{}:{:02}", sign, hours, minutes)
+  }
+}
+
+fn quarter_value(quarter0: u32, d: usize) -> String {
+  match d {
+    1 => (quarter0 + 1).to_string(),
+    2 => format!("{:02}", quarter0 + 1),
+    3 => format!("Q{}", quarter0 + 1),
+    _ => format!("{} quarter", ["1st", "2nd", "3rd", "4th"][quarter0 as usize])
+  }
+}
+
 /// Generates a date/time string from the current system clock using the provided format string
 pub fn generate_string(format: &str) -> Result<String, String> {
   trace!("generating date/time from '{}'", format);
   match parse_pattern(format) {
     Ok(pattern_tokens) => {
       trace!("parsed date/time patterns: {:?}", pattern_tokens);
-      let chrono_pattern = to_chrono_pattern(&pattern_tokens);
-      trace!("Chrono pattern: {}", chrono_pattern);
-      Ok(Local::now().format(chrono_pattern.as_str()).to_string())
+      format_datetime(&Local::now(), &pattern_tokens)
     },
     Err(err) => {
       error!("Error parsing '{}': {:?}", format, err);
-- 
2.43.0


From 84bd74c37146a83bb54305e82363b166656c80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 12/45] fix: status codes and header lists of damaged pacts are
 reported or ignored instead of panicking

---
 rust/pact_models/src/json_utils.rs    | 16 ++++++++++------
 rust/pact_models/src/lib.rs           | 11 ++++-------
 rust/pact_models/src/path_exp.rs      |  4 +++-
 rust/pact_models/src/response.rs      |  4 ++--
 rust/pact_models/src/v4/http_parts.rs | 12 ++++++------
 rust/pact_models/src/v4/mod.rs        |  2 +-
 6 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 81cc480..04413a4 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -5,6 +5,7 @@ use std::hash::{Hash, Hasher};
 use std::ops::Index;
 use std::str::FromStr;
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use indextree::{Arena, NodeId};
@@ -151,12 +152,7 @@ enum JsonParsable {
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
-      },
+      Some(kv) => kv.1.first().and_then(|value| ContentType::parse(value.as_str()).ok()),
       None => None
     },
     None => None
@@ -193,6 +189,14 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
   }
 }
 
+/// Converts the JSON value of an HTTP response status. Values that are not a number from 0 to 65535
+/// are an error.
+pub(crate) fn status_from_json(value: &Value) -> anyhow::Result<u16> {
+  value.as_u64()
+    .and_then(|status| u16::try_from(status).ok())
+    .ok_or_else(|| anyhow!("'{}' is not a valid HTTP response status", value))
+}
+
 /// Deep merges the other value into the given value
 pub fn json_deep_merge(value: &Value, other: &Value) -> Value {
   match (value, other) {
diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..85e7fbe 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -377,13 +377,10 @@ impl HttpStatus {
       },
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
-          Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
-          } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
-          } else {
-            Ok(n.as_f64().unwrap() as u16)
-          },
+          Value::Number(n) => n.as_u64()
+            .or_else(|| n.as_f64().filter(|f| *f >= 0.0 && f.fract() == 0.0).map(|f| f as u64))
+            .and_then(|code| u16::try_from(code).ok())
+            .ok_or_else(|| anyhow!("'{}' is not a valid HTTP status code", n)),
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
         }).collect::<Vec<anyhow::Result<u16>>>();
diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..ce9dc31 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -648,7 +648,9 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
+  let index = id.parse()
+    .map_err(|err| format!("Index \"{}\" is not valid in path expression \"{}\" - {}", id, path, err))?;
+  tokens.push(PathToken::Index(index));
   Ok(())
 }
 
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..c9163c9 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -14,7 +14,7 @@ use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, headers_from_json, headers_to_json, status_from_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::v4::http_parts::HttpResponse;
 
@@ -39,7 +39,7 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => status_from_json(v)?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..fa598a4 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -18,7 +18,7 @@ use crate::bodies::OptionalBody;
 use crate::content_types::{ContentType, ContentTypeHint, detect_content_type_from_bytes};
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{headers_from_json, json_to_string};
+use crate::json_utils::{headers_from_json, json_to_string, status_from_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::PactSpecification;
 use crate::query_strings::{query_to_json, v3_query_from_json};
@@ -397,15 +397,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+          Some((_, v)) => v.first().and_then(|value| {
+            match ContentType::parse(value.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", value, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
@@ -500,7 +500,7 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => status_from_json(v)?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..cea3e05 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|value| ContentType::parse(value.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From e198d412656ac88365d8ec668286907a9b71ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 13/45] fix: the content type in the metadata of a message is
 looked up as a string as well as a list

---
 rust/pact_models/src/message.rs          | 5 ++++-
 rust/pact_models/src/v4/message_parts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index abfffef..14ef4d5 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,10 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..c64aa4b 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,10 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| match v {
+      Value::Array(values) => values.first().map(json_to_string).unwrap_or_default(),
+      _ => json_to_string(v)
+    })
   }
 }
 
-- 
2.43.0


From a04ee30f6b37ac56862ed9ae1fe0f76359d51da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 14/45] fix: generators reach fields whose names contain / or ~
 or are empty

---
 rust/pact_models/src/json_utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 04413a4..5750b11 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -243,7 +243,7 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
+    if node_id != root && node.first_child().is_none() {
       let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
@@ -254,6 +254,11 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   expanded_paths
 }
 
+/// Escapes a field name as a reference token of a JSON pointer
+fn escape_pointer(name: &str) -> String {
+  name.replace('~', "~0").replace('/', "~1")
+}
+
 fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root: NodeId, body: Value) {
   let mut body_cursor = body;
   let mut it = path_exp.iter();
@@ -266,7 +271,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
             match body_cursor.as_object() {
               Some(map) => match map.get(name) {
                 Some(val) => {
-                  node_cursor = node_cursor.append_value(name.clone(), tree);
+                  node_cursor = node_cursor.append_value(escape_pointer(name), tree);
                   body_cursor = val.clone();
                 },
                 None => return
@@ -288,7 +293,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
               Some(map) => {
                 let remaining = it.by_ref().cloned().collect();
                 for (key, val) in map {
-                  let node = node_cursor.append_value(key.clone(), tree);
+                  let node = node_cursor.append_value(escape_pointer(key), tree);
                   body_cursor = val.clone();
                   query_object_graph(&remaining, tree, node, val.clone());
                 }
-- 
2.43.0


From 3072544b450e49ec6411a2f68a80817413da8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 15/45] fix: generators keep the content type of the body and
 look up header names case-insensitively

---
 rust/pact_matching/src/generators/bodies.rs | 29 +++++++++++++++------
 rust/pact_matching/src/lib.rs               | 14 +++++-----
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/rust/pact_matching/src/generators/bodies.rs b/rust/pact_matching/src/generators/bodies.rs
index a6c6344..ac93514 100644
--- a/rust/pact_matching/src/generators/bodies.rs
+++ b/rust/pact_matching/src/generators/bodies.rs
@@ -17,6 +17,15 @@ use pact_models::plugins::PluginData;
 
 #[cfg(feature = "form_urlencoded")] use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
 
+/// The generated body with the content type (and hint) of the original one
+fn retain_content_type(original: &OptionalBody, generated: OptionalBody) -> OptionalBody {
+  match (original, generated) {
+    (OptionalBody::Present(_, Some(content_type), hint), OptionalBody::Present(contents, _, _)) =>
+      OptionalBody::Present(contents, Some(content_type.clone()), hint.clone()),
+    (_, generated) => generated
+  }
+}
+
 /// Apply the generators to the body, returning a new body
 #[allow(unused_variables)]
 pub async fn generators_process_body(
@@ -36,10 +45,12 @@ pub async fn generators_process_body(
       match result {
         Ok(val) => {
           let mut handler = JsonHandler { value: val };
-          Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-            error!("Failed to generate the body: {}", err);
-            body.clone()
-          }))
+          Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+            .map(|generated| retain_content_type(body, generated))
+            .unwrap_or_else(|err| {
+              error!("Failed to generate the body: {}", err);
+              body.clone()
+            }))
         },
         Err(err) => {
           error!("Failed to parse the body, so not applying any generators: {}", err);
@@ -77,10 +88,12 @@ pub async fn generators_process_body(
         match result {
           Ok(val) => {
             let mut handler = FormUrlEncodedHandler { params: val };
-            Ok(handler.process_body(generators, mode, context, &matcher.boxed()).unwrap_or_else(|err| {
-              error!("Failed to generate the body: {}", err);
-              body.clone()
-            }))
+            Ok(handler.process_body(generators, mode, context, &matcher.boxed())
+              .map(|generated| retain_content_type(body, generated))
+              .unwrap_or_else(|err| {
+                error!("Failed to generate the body: {}", err);
+                body.clone()
+              }))
           },
           Err(err) => {
             error!("Failed to parse the body, so not applying any generators: {}", err);
diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 44bb6e7..7debe7f 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -2298,9 +2298,10 @@ pub async fn generate_request(request: &HttpRequest, mode: &GeneratorTestMode, c
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = request.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          // header names are not case-sensitive
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
@@ -2379,9 +2380,10 @@ pub async fn generate_response(response: &HttpResponse, mode: &GeneratorTestMode
     apply_generators(mode, &generators, &mut |key, generator| {
       if let Some(header) = key.first_field() {
         if let Some(ref mut headers) = response.headers {
-          if headers.contains_key(header) {
-            if let Ok(v) = generator.generate_value(&headers.get(header).unwrap().clone(), context, &DefaultVariantMatcher.boxed()) {
-              headers.insert(header.to_string(), v);
+          // header names are not case-sensitive
+          if let Some((_, values)) = headers.iter_mut().find(|(name, _)| name.eq_ignore_ascii_case(header)) {
+            if let Ok(v) = generator.generate_value(values, context, &DefaultVariantMatcher.boxed()) {
+              *values = v;
             }
           } else {
             if let Ok(v) = generator.generate_value(&"".to_string(), context, &DefaultVariantMatcher.boxed()) {
-- 
2.43.0


From 303009b9732cc7d9215fd394665e85e9140d2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 16/45] fix: array contains generators are applied to the
 contents of V4 messages

---
 rust/pact_matching/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_matching/src/generators/mod.rs b/rust/pact_matching/src/generators/mod.rs
index 614167e..ad62f1b 100644
--- a/rust/pact_matching/src/generators/mod.rs
+++ b/rust/pact_matching/src/generators/mod.rs
@@ -11,7 +11,6 @@ use pact_models::generators::{
   Generator,
   GeneratorCategory,
   GeneratorTestMode,
-  NoopVariantMatcher,
   VariantMatcher
 };
 use pact_models::http_parts::HttpPart;
@@ -125,7 +124,7 @@ pub async fn apply_generators_to_sync_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> (MessageContents, Vec<MessageContents>) {
   let mut request = message.request.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher {};
   let vm_boxed = variant_matcher.boxed();
 
   let generators = request.build_generators(&GeneratorCategory::METADATA);
@@ -189,7 +188,7 @@ pub async fn apply_generators_to_async_message(
   interaction_data: &HashMap<String, HashMap<String, Value>>
 ) -> MessageContents {
   let mut copy = message.contents.clone();
-  let variant_matcher = NoopVariantMatcher {};
+  let variant_matcher = DefaultVariantMatcher {};
   let vm_boxed = variant_matcher.boxed();
 
   let generators = message.build_generators(&GeneratorCategory::METADATA);
-- 
2.43.0


From adf3524d4a3c97b2d33e85b814eb266a726af7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 17/45] fix: rules for arrays are applied when the expected
 array is empty

---
 rust/pact_matching/src/matchingrules.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/pact_matching/src/matchingrules.rs b/rust/pact_matching/src/matchingrules.rs
index 9c38012..e5a9936 100644
--- a/rust/pact_matching/src/matchingrules.rs
+++ b/rust/pact_matching/src/matchingrules.rs
@@ -451,6 +451,14 @@ pub fn compare_lists_with_matchingrule<T: Display + Debug + PartialEq + Clone +
         result.extend(match_list_contents(path, expected, actual, context, callback));
       }
     }
+  } else if let Err(mismatch) = expected.matches_with(actual, rule, cascaded) {
+    // there is no example to compare the items with, but the rule still applies to the list itself
+    result.push(CommonMismatch {
+      path: path.to_string(),
+      expected: expected.for_mismatch(),
+      actual: actual.for_mismatch(),
+      description: mismatch.to_string()
+    });
   }
 
   if result.is_empty() {
-- 
2.43.0


From 936ad1bab8ebcc395f3653f78fba76439fa47867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 18/45] fix: the best of several rules decides which keys are
 allowed

---
 rust/pact_matching/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/pact_matching/src/lib.rs b/rust/pact_matching/src/lib.rs
index 7debe7f..8d02010 100644
--- a/rust/pact_matching/src/lib.rs
+++ b/rust/pact_matching/src/lib.rs
@@ -567,7 +567,9 @@ impl MatchingContext for CoreMatchingContext {
     if matchers.is_empty() {
       actual.is_not_empty()
     } else {
-      actual.as_rule_list().rules.iter().any(|r| matchers.contains(r.name().as_str()))
+      let path = path.to_vec();
+      let path_slice = path.iter().map(|p| p.as_str()).collect_vec();
+      actual.select_best_matcher(path_slice.as_slice()).rules.iter().any(|r| matchers.contains(r.name().as_str()))
     }
   }
 
-- 
2.43.0


From e85755e0d8eb76e87799eccafaa8ccc94a91ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 19/45] fix: Verify the pact files found in sub-directories of
 a pact directory

---
 rust/pact_verifier/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 042e7f5..2ed3c61 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -753,7 +753,7 @@ fn walkdir(
         let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
-            walkdir(&path, provider)?;
+            pacts.extend(walkdir(&path, provider)?);
         } else {
           match timeit(|| read_pact(&path)) {
             Ok((pact, tm)) => {
-- 
2.43.0


From 400dd015dae686133561da5f8445460184dbb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 20/45] fix: Tear down the provider states of an interaction
 when one of them can not be set up

---
 rust/pact_verifier/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 2ed3c61..ac4a8b8 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -424,9 +424,18 @@ async fn verify_interaction<'a, F: RequestFilterExecutor, S: ProviderStateExecut
     ))?);
 
   debug!("Executing provider states");
-  let context = execute_provider_states(interaction, provider_state_executor, &client, true)
-    .await
-    .map_err(|e| (e, vec![], start.elapsed()))?;
+  let context = match execute_provider_states(interaction, provider_state_executor, &client, true).await {
+    Ok(context) => context,
+    Err(err) => {
+      // Some of the state change handlers could have succeeded, so they need to be torn down
+      if provider_state_executor.teardown() {
+        if let Err(teardown_err) = execute_provider_states(interaction, provider_state_executor, &client, false).await {
+          error!("Provider state teardown after the failed setup has also failed - {:?}", teardown_err);
+        }
+      }
+      return Err((err, vec![], start.elapsed()));
+    }
+  };
   let mut provider_states_context = hashmap!{};
   for provider_state in interaction.provider_states() {
     for (k, v) in provider_state.params {
-- 
2.43.0


From 54a8247282a867f04d7272f8100473efed832dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 21/45] fix: A failed provider state teardown must not hide the
 mismatches of the interaction

---
 rust/pact_verifier/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index ac4a8b8..984f8e4 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -484,9 +484,13 @@ async fn verify_interaction<'a, F: RequestFilterExecutor, S: ProviderStateExecut
   }
 
   if provider_state_executor.teardown() {
-    execute_provider_states(interaction, provider_state_executor, &client, false)
-      .await
-      .map_err(|e| (e, vec![], start.elapsed()))?;
+    if let Err(err) = execute_provider_states(interaction, provider_state_executor, &client, false).await {
+      if result.is_ok() {
+        return Err((err, vec![], start.elapsed()));
+      }
+      // The verification has already failed, don't hide the cause of that
+      error!("Provider state teardown has failed - {:?}", err);
+    }
   }
 
   result
-- 
2.43.0


From 5b1fa972c8710be635c3da1e71909c1b940a49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 22/45] fix: A message request the provider answers with an
 error status is a failed verification

---
 rust/pact_verifier/src/messages.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_verifier/src/messages.rs b/rust/pact_verifier/src/messages.rs
index 498e44b..d935cd8 100644
--- a/rust/pact_verifier/src/messages.rs
+++ b/rust/pact_verifier/src/messages.rs
@@ -86,6 +86,10 @@ pub(crate) async fn verify_message_from_provider<'a, F: RequestFilterExecutor>(
 
   match make_provider_request(provider, &message_request, options, client, transport).await {
     Ok(ref actual_response) => {
+      if !actual_response.is_success() {
+        return Err(MismatchResult::Error(format!("Request to fetch message from provider failed: status {}", actual_response.status), interaction.id().clone()));
+      }
+
       let metadata = extract_metadata(actual_response);
       let actual = AsynchronousMessage {
         contents: MessageContents {
-- 
2.43.0


From 594201734d35638293821e6b41ea72e5450dbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 23/45] fix: A pact that the broker lists but does not have is
 an error, even if having no pacts is not

---
 rust/pact_verifier/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index 984f8e4..b6461b7 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1334,7 +1334,8 @@ async fn fetch_pact(
                   tm.clone()
                 )));
               },
-              Err(err) => buffer.push(Err(anyhow::Error::new(err.clone()).context(format!("Failed to load pact from '{}'", broker_url))))
+              // Not chained, as a pact that is listed but can't be found is not the same as there being no pacts
+              Err(err) => buffer.push(Err(anyhow!("Failed to load pact from '{}' - {}", broker_url, err)))
             }
           }
           buffer
-- 
2.43.0


From d7a0b99f1b05f99585c212cf8471c33dfa1e0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 24/45] fix: A pacts for verification response that can not be
 read is not an empty list of pacts

---
 rust/pact_verifier/src/pact_broker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index 3f186af..aa42047 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -701,10 +701,10 @@ pub async fn fetch_pacts_dynamically_from_broker(
       Some(v) => {
         let pfv: PactsForVerificationResponse = serde_json::from_value(v)
           .map_err(|err| {
-            trace!("Failed to deserialise PactsForVerificationResponse: {}", err);
-            err
-          })
-          .unwrap_or(PactsForVerificationResponse { embedded: PactsForVerificationBody { pacts: vec!() } });
+            PactBrokerError::ContentError(
+              format!("Did not get a valid pacts for verification response from pact broker - {}. URL: '{}'", err, broker_url)
+            )
+          })?;
         trace!(?pfv, "got pacts for verification response");
 
         if pfv.embedded.pacts.len() == 0 {
-- 
2.43.0


From 274ea33a475ba9be3911d37e554d63924451fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 25/45] fix: Requests with no retries configured must still be
 sent once

---
 rust/pact_verifier/src/utils.rs | 156 ++++++++++++++++----------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/rust/pact_verifier/src/utils.rs b/rust/pact_verifier/src/utils.rs
index 5c6840d..00d300b 100644
--- a/rust/pact_verifier/src/utils.rs
+++ b/rust/pact_verifier/src/utils.rs
@@ -1,78 +1,78 @@
-//! Utility functions
-
-use std::panic::RefUnwindSafe;
-use std::time::Duration;
-
-use futures::StreamExt;
-use pact_models::interaction::Interaction;
-use reqwest::RequestBuilder;
-use tokio::time::sleep;
-use tracing::{trace, warn};
-
-/// Retries a request on failure
-pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
-  match &request.try_clone() {
-    None => {
-      warn!("with_retries: Could not retry the request as it is not cloneable");
-      request.send().await
-    }
-    Some(rb) => {
-      futures::stream::iter((1..=retries).step_by(1))
-        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
-          async move {
-            match request {
-              Some(request_builder) => match response {
-                None => {
-                  let next = request_builder.try_clone();
-                  (Some(request_builder.send().await), next)
-                },
-                Some(response) => {
-                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
-                  match response {
-                    Ok(ref res) => if res.status().is_server_error() {
-                      match request_builder.try_clone() {
-                        None => (Some(response), None),
-                        Some(rb) => {
-                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                          (Some(request_builder.send().await), Some(rb))
-                        }
-                      }
-                    } else {
-                      (Some(response), None)
-                    },
-                    Err(ref err) => if err.is_status() {
-                      if err.status().unwrap_or_default().is_server_error() {
-                        match request_builder.try_clone() {
-                          None => (Some(response), None),
-                          Some(rb) => {
-                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
-                            (Some(request_builder.send().await), Some(rb))
-                          }
-                        }
-                      } else {
-                        (Some(response), None)
-                      }
-                    } else {
-                      (Some(response), None)
-                    }
-                  }
-                }
-              }
-              None => (response, None)
-            }
-          }
-        }).await.0.unwrap()
-    }
-  }
-}
-
-pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
-  if let Some(v4) = interaction.as_v4_sync_message() {
-    Box::new(v4)
-  } else if let Some(v4) = interaction.as_v4_async_message() {
-    Box::new(v4)
-  } else {
-    let v4 = interaction.as_v4_http().unwrap();
-    Box::new(v4)
-  }
-}
+//! Utility functions
+
+use std::panic::RefUnwindSafe;
+use std::time::Duration;
+
+use futures::StreamExt;
+use pact_models::interaction::Interaction;
+use reqwest::RequestBuilder;
+use tokio::time::sleep;
+use tracing::{trace, warn};
+
+/// Retries a request on failure
+pub(crate) async fn with_retries(retries: u8, request: RequestBuilder) -> Result<reqwest::Response, reqwest::Error> {
+  match &request.try_clone() {
+    None => {
+      warn!("with_retries: Could not retry the request as it is not cloneable");
+      request.send().await
+    }
+    Some(rb) => {
+      futures::stream::iter((1..=retries.max(1)).step_by(1))
+        .fold((None::<Result<reqwest::Response, reqwest::Error>>, rb.try_clone()), |(response, request), attempt| {
+          async move {
+            match request {
+              Some(request_builder) => match response {
+                None => {
+                  let next = request_builder.try_clone();
+                  (Some(request_builder.send().await), next)
+                },
+                Some(response) => {
+                  trace!("with_retries: attempt {}/{} is {:?}", attempt, retries, response);
+                  match response {
+                    Ok(ref res) => if res.status().is_server_error() {
+                      match request_builder.try_clone() {
+                        None => (Some(response), None),
+                        Some(rb) => {
+                          sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                          (Some(request_builder.send().await), Some(rb))
+                        }
+                      }
+                    } else {
+                      (Some(response), None)
+                    },
+                    Err(ref err) => if err.is_status() {
+                      if err.status().unwrap_or_default().is_server_error() {
+                        match request_builder.try_clone() {
+                          None => (Some(response), None),
+                          Some(rb) => {
+                            sleep(Duration::from_millis(10_u64.pow(attempt as u32))).await;
+                            (Some(request_builder.send().await), Some(rb))
+                          }
+                        }
+                      } else {
+                        (Some(response), None)
+                      }
+                    } else {
+                      (Some(response), None)
+                    }
+                  }
+                }
+              }
+              None => (response, None)
+            }
+          }
+        }).await.0.unwrap()
+    }
+  }
+}
+
+pub(crate) fn as_safe_ref(interaction: &dyn Interaction) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
+  if let Some(v4) = interaction.as_v4_sync_message() {
+    Box::new(v4)
+  } else if let Some(v4) = interaction.as_v4_async_message() {
+    Box::new(v4)
+  } else {
+    let v4 = interaction.as_v4_http().unwrap();
+    Box::new(v4)
+  }
+}
-- 
2.43.0


From 79c3b21eb5c3fd34f5ff7fa9b37a9388db853732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 26/45] fix: A Pact Broker that never answers must not block
 the verification forever

---
 rust/pact_verifier/src/pact_broker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index aa42047..e1781b2 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -3,6 +3,7 @@
 use std::collections::HashMap;
 use std::panic::RefUnwindSafe;
 use std::str::from_utf8;
+use std::time::Duration;
 
 use anyhow::anyhow;
 use futures::stream::*;
@@ -69,6 +70,10 @@ fn find_entry(map: &serde_json::Map<String, Value>, key: &str) -> Option<(String
     }
 }
 
+/// Time after which a request to the Pact Broker is abandoned. Without one, a broker that does not
+/// answer would block the verification forever.
+const BROKER_REQUEST_TIMEOUT: Duration = Duration::from_secs(60);
+
 /// Errors that can occur with a Pact Broker
 #[derive(Debug, Clone, thiserror::Error)]
 pub enum PactBrokerError {
@@ -549,6 +554,7 @@ impl Default for HALClient {
       client: reqwest::ClientBuilder::new()
         .user_agent(format!("{}/{}", env!("CARGO_PKG_NAME"), env!("CARGO_PKG_VERSION")))
         .tcp_keepalive(None)
+        .timeout(BROKER_REQUEST_TIMEOUT)
         .build()
         .unwrap(),
       url: "".to_string(),
-- 
2.43.0


From 99fae63108dc2f0d332523958de46fbd65a5943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 27/45] fix: Publishing results without a provider version must
 not crash the verification

---
 rust/pact_verifier/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index b6461b7..e433b82 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1626,6 +1626,9 @@ async fn publish_to_broker(
   auth: Option<HttpAuth>,
   metrics_data: Option<&VerificationMetrics>
 ) -> Result<Value, pact_broker::PactBrokerError> {
+  let provider_version = provider_version.as_ref().ok_or_else(|| pact_broker::PactBrokerError::ContentError(
+    "A provider version is required to publish verification results".to_string()
+  ))?;
   info!("Publishing verification results back to the Pact Broker");
   let result = if results.iter().all(|r| r.result.is_ok()) {
     debug!("Publishing a successful result to {}", source);
@@ -1643,7 +1646,7 @@ async fn publish_to_broker(
     broker_url.as_str(),
     auth.clone(),
     result,
-    provider_version.clone().unwrap(),
+    provider_version.clone(),
     build_url.clone(),
     provider_tags.clone(),
     provider_branch.clone(),
-- 
2.43.0


From 12be765bc29b824e6927fb2ed6035ffaa620900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 28/45] fix: Do not publish a result for a pact if not all of
 its interactions have been verified

---
 rust/pact_verifier/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index e433b82..e7f09c8 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1053,6 +1053,7 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
               Some(context) => context.verification_properties.pending,
               None => false
             };
+            let interaction_count = pact.interactions().len();
             let verify_result = verify_pact_internal(
               &provider_info,
               &filter,
@@ -1096,7 +1097,11 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
             verification_result.interaction_results.extend_from_slice(results.as_slice());
 
             if let Some(publish) = publish_options {
-              publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
+              if results.len() == interaction_count {
+                publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
+              } else {
+                warn!("Not publishing the results, as not all the interactions of the pact have been verified");
+              }
 
               if !errors.is_empty() || !pending_errors.is_empty() {
                 process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH, &mut verification_result);
-- 
2.43.0


From cd6a77fcec67ef800a277e17d15816748ca7302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 29/45] fix: Show the notices of a pact that belong to its own
 result and publication

---
 rust/pact_verifier/src/lib.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/rust/pact_verifier/src/lib.rs b/rust/pact_verifier/src/lib.rs
index e7f09c8..199f7bb 100644
--- a/rust/pact_verifier/src/lib.rs
+++ b/rust/pact_verifier/src/lib.rs
@@ -1096,25 +1096,25 @@ pub async fn verify_provider_async<F: RequestFilterExecutor, S: ProviderStateExe
             total_results += results.len();
             verification_result.interaction_results.extend_from_slice(results.as_slice());
 
-            if let Some(publish) = publish_options {
+            let published = if let Some(publish) = publish_options {
               if results.len() == interaction_count {
-                publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await;
+                publish_result(results.as_slice(), &pact_source, &publish, metrics_data.as_ref()).await
               } else {
                 warn!("Not publishing the results, as not all the interactions of the pact have been verified");
-              }
-
-              if !errors.is_empty() || !pending_errors.is_empty() {
-                process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH, &mut verification_result);
-              } else {
-                process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_PUBLISH, &mut verification_result);
+                false
               }
             } else {
-              if !errors.is_empty() || pending_errors.is_empty() {
-                process_notices(&context, VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH, &mut verification_result);
-              } else {
-                process_notices(&context, VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_NO_PUBLISH, &mut verification_result);
-              }
-            }
+              false
+            };
+
+            let successful = verify_result.is_ok() && results.iter().all(|r| r.result.is_ok());
+            let stage = match (successful, published) {
+              (true, true) => VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_PUBLISH,
+              (true, false) => VERIFICATION_NOTICE_AFTER_SUCCESSFUL_RESULT_AND_NO_PUBLISH,
+              (false, true) => VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_PUBLISH,
+              (false, false) => VERIFICATION_NOTICE_AFTER_ERROR_RESULT_AND_NO_PUBLISH
+            };
+            process_notices(&context, stage, &mut verification_result);
           }
         },
         Err(err) => {
@@ -1595,7 +1595,7 @@ async fn publish_result(
   source: &PactSource,
   options: &PublishOptions,
   metrics_data: Option<&VerificationMetrics>
-) {
+) -> bool {
   let publish_result = match source {
     PactSource::BrokerUrl(_, broker_url, auth, links) => {
       publish_to_broker(results, source, &options.build_url, &options.provider_tags,
@@ -1610,13 +1610,14 @@ async fn publish_result(
     }
     _ => {
       info!("Not publishing results as publishing for pact source {:?} is not possible or not yet implemented", source);
-      return;
+      return false;
     }
   };
   match &publish_result {
     Ok(_) => info!("Results published to Pact Broker"),
     Err(err) => error!("Publishing of verification results failed with an error: {}", err)
   };
+  publish_result.is_ok()
 }
 
 async fn publish_to_broker(
-- 
2.43.0


From aaa206bfa0c0b8a92e4ed48a8cf7c30c352cbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 30/45] fix: Keep the query strings of the links of the Pact
 Broker

---
 rust/pact_verifier/src/pact_broker.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/pact_verifier/src/pact_broker.rs b/rust/pact_verifier/src/pact_broker.rs
index e1781b2..fc8a5e3 100644
--- a/rust/pact_verifier/src/pact_broker.rs
+++ b/rust/pact_verifier/src/pact_broker.rs
@@ -291,7 +291,7 @@ impl HALClient {
 
     let base_url = self.url.parse::<Url>()?;
     let joined_url = base_url.join(&link_url)?;
-    self.fetch(joined_url.path().into()).await
+    self.fetch(path_and_query(&joined_url).as_str()).await
   }
 
   async fn fetch(&self, path: &str) -> Result<Value, PactBrokerError> {
@@ -335,8 +335,8 @@ impl HALClient {
         base_url.join(path)?
       } else if path.starts_with("/") {
         let mut base_url = broker_url.clone();
-        base_url.set_path(path);
-        base_url
+        base_url.set_path("/");
+        base_url.join(path)?
       } else {
         let mut base_url = broker_url.clone();
         let mut cp = context_path.to_string();
@@ -482,7 +482,7 @@ impl HALClient {
       base_url.join(url)?
     } else {
       let url = url.parse::<Url>()?;
-      base_url.join(&url.path())?
+      base_url.join(path_and_query(&url).as_str())?
     };
 
     let request_builder = match self.auth {
@@ -565,6 +565,13 @@ impl Default for HALClient {
   }
 }
 
+fn path_and_query(url: &Url) -> String {
+  match url.query() {
+    Some(query) => format!("{}?{}", url.path(), query),
+    None => url.path().to_string()
+  }
+}
+
 fn links_from_json(json: &Value) -> Vec<Link> {
    match json.get("_links") {
     Some(json) => match json {
-- 
2.43.0


From d893a6b933e79ec248a0306d73984e1ef90f1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 31/45] fix: Custom headers take precedence over the headers in
 the pact whatever their case

---
 rust/pact_verifier/src/provider_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_verifier/src/provider_client.rs b/rust/pact_verifier/src/provider_client.rs
index 28385a8..e31e2b6 100644
--- a/rust/pact_verifier/src/provider_client.rs
+++ b/rust/pact_verifier/src/provider_client.rs
@@ -106,7 +106,7 @@ fn create_native_request(
   if let Some(headers) = &request.headers {
     let mut header_map = HeaderMap::new();
     for (k, vals) in headers {
-      if !custom_headers.contains_key(k) {
+      if !custom_headers.keys().any(|h| h.eq_ignore_ascii_case(k)) {
         for header_value in vals {
           let header_name = HeaderName::try_from(k)
             .map_err(|err| ProviderClientError::RequestHeaderNameError(
-- 
2.43.0


From 5dc55d8de2328ae26741a511a780f483be27b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:58 +0000
Subject: [PATCH 32/45] fix: interactions of every type can be cloned and
 displayed

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..b6a6ef4 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -153,6 +153,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -166,6 +168,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From 31942d4bc0ae72160ad129d7f69b1540e1dd95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 33/45] fix: Matching rules for deeply nested values no longer
 overflow the path weight

---
 rust/pact_models/src/matchingrules/mod.rs | 4 ++--
 rust/pact_models/src/path_exp.rs          | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 8cc2625..c9aed02 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -992,9 +992,9 @@ impl MatchingRuleCategory {
   }
 
   fn max_by_path(&self, path: &[&str]) -> RuleList {
-    self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
+    self.rules.iter().map(|(k, v)| (k, v, k.weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(k, _, (w, t))| (w * t, k))
+      .max_by_key(|&(k, _, (w, t))| (w.saturating_mul(t as u128), k))
       .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
       .unwrap_or_default()
   }
diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index ce9dc31..2acc202 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -189,13 +189,20 @@ impl DocPath {
   /// Calculates the path weight for this path expression and a given path.
   /// Returns a tuple of the calculated weight and the number of path tokens matched.
   pub fn path_weight(&self, path: &[&str]) -> (usize, usize) {
+    let (weight, matched) = self.weight(path);
+    (usize::try_from(weight).unwrap_or(usize::MAX), matched)
+  }
+
+  /// The path weight doubles with every token that matches exactly, so the weights of deep paths
+  /// do not fit into a usize.
+  pub(crate) fn weight(&self, path: &[&str]) -> (u128, usize) {
     trace!("Calculating weight for path tokens '{:?}' and path '{:?}'",
            self.path_tokens, path);
     let weight = {
       if path.len() >= self.len() {
         (
           self.path_tokens.iter().zip(path.iter())
-          .fold(1, |acc, (token, fragment)| acc * matches_token(fragment, token)),
+          .fold(1u128, |acc, (token, fragment)| acc.saturating_mul(matches_token(fragment, token) as u128)),
           self.len()
         )
       } else {
-- 
2.43.0


From eec621722f041a11d07579bcaca74a668374aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 34/45] fix: Milliseconds and nanoseconds that are out of range
 are not valid times

---
 rust/pact_models/src/time_utils.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 1480969..ef033cf 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -582,6 +582,15 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
+fn count_up_to(s: &str, upper: u64) -> IResult<&str, String, DateTimeError<&str>> {
+  digit1(s).and_then(|(remaining, result): (&str, &str)| {
+    match result.parse::<u64>() {
+      Ok(value) if value <= upper => Ok((remaining, result.into())),
+      _ => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
+    }
+  })
+}
+
 fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
   take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
     match validate_number(result, "offset hour".into(), 0, 18) {
@@ -808,7 +817,7 @@ fn validate_datetime_string(value: &str, pattern_tokens: &[DateTimePatternToken]
       DateTimePatternToken::Minute => minute(buffer),
       DateTimePatternToken::Second => second(buffer),
       DateTimePatternToken::Millisecond(size) => second_fraction(buffer, *size),
-      DateTimePatternToken::Nanosecond(_size) => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
+      DateTimePatternToken::Nanosecond(_size) => count_up_to(buffer, 999_999_999),
       DateTimePatternToken::TimezoneName(size) => timezone(buffer, *size),
       DateTimePatternToken::TimezoneId(_size) => timezone_id(buffer),
       DateTimePatternToken::TimezoneOffset(size) => timezone_offset(buffer, *size),
@@ -818,8 +827,8 @@ fn validate_datetime_string(value: &str, pattern_tokens: &[DateTimePatternToken]
       DateTimePatternToken::AmPm => ampm(buffer),
       DateTimePatternToken::QuarterOfYear(count) => quarter(buffer, *count),
       DateTimePatternToken::QuarterOfYearNum(count) => quarter_num(buffer, *count),
-      DateTimePatternToken::MillisecondOfDay => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
-      DateTimePatternToken::NanosecondOfDay => digit1(buffer).map(|(remaining, result)| (remaining, result.into())),
+      DateTimePatternToken::MillisecondOfDay => count_up_to(buffer, 86_399_999),
+      DateTimePatternToken::NanosecondOfDay => count_up_to(buffer, 86_399_999_999_999),
     }.map_err(|err| format!("{:?}", err))?;
 
     matched_values.push((token.clone(), result.1));
-- 
2.43.0


From 720eb5e0917a9e96b4cfdb24c276b7d3485737a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 35/45] fix: Elements with hyphens and dots in their names can
 be found by their path

---
 rust/pact_models/src/xml_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index e885580..18a0a55 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -203,7 +203,7 @@ pub fn text_nodes(element: &Element) -> Vec<String> {
 }
 
 lazy_static!{
-   static ref PATH_RE: Regex = Regex::new(r#"(\w+)\[(\d+)]"#).unwrap();
+   static ref PATH_RE: Regex = Regex::new(r#"^(.+)\[(\d+)]$"#).unwrap();
 }
 
 /// Enum to box the result value from resolve_matching_node
-- 
2.43.0


From 1bf2f4bd0b1cd1896e9816c34d0a475bb2c46e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 36/45] fix: Whitespace around references in XML text is
 compared

---
 rust/pact_matching/src/xml.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rust/pact_matching/src/xml.rs b/rust/pact_matching/src/xml.rs
index 988b6b3..95ce711 100644
--- a/rust/pact_matching/src/xml.rs
+++ b/rust/pact_matching/src/xml.rs
@@ -336,6 +336,20 @@ fn compare_children(
   }
 }
 
+/// The text of the element. The parser starts a new text node at every character or entity
+/// reference, so the whitespace can only be trimmed where the text is bounded by another node.
+fn text_of(element: &Element) -> String {
+  element.children().iter()
+    .chunk_by(|child| child.text().is_some())
+    .into_iter()
+    .filter(|(is_text, _)| *is_text)
+    .map(|(_, texts)| {
+      let text: String = texts.filter_map(|child| child.text()).map(|text| text.text()).collect();
+      text.trim().to_string()
+    })
+    .collect()
+}
+
 fn compare_text(
   path: &DocPath,
   expected: &Element,
@@ -343,14 +357,8 @@ fn compare_text(
   mismatches: &mut Vec<super::Mismatch>,
   context: &dyn MatchingContext
 ) {
-    let expected_text = expected.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
-    let actual_text = actual.children().iter().cloned()
-        .filter(|child| child.text().is_some())
-        .map(|child| child.text().unwrap().text().trim())
-        .collect::<String>();
+    let expected_text = text_of(expected);
+    let actual_text = text_of(actual);
     let p = path.join("#text");
     let matcher_result = if context.matcher_is_defined(&p) {
       match_values(&p, &context.select_best_matcher(&p), expected_text.trim(), actual_text.trim())
-- 
2.43.0


From 4321c2bb6060785075750fe6a6d85b2db668a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 37/45] fix: The text of an XML element does not include the
 text of the elements in it

---
 rust/pact_models/src/xml_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/xml_utils.rs b/rust/pact_models/src/xml_utils.rs
index 18a0a55..0bb80d1 100644
--- a/rust/pact_models/src/xml_utils.rs
+++ b/rust/pact_models/src/xml_utils.rs
@@ -251,7 +251,7 @@ fn match_next(element: &Element, paths: &[&str]) -> Option<XmlResult> {
       element.attributes().get(&first_part[1..])
         .map(|value| XmlResult::Attribute(first_part[1..].to_string(), value.clone()))
     } else if *first_part == "#text" {
-      let text = element.text();
+      let text = text_nodes(element).concat();
       if text.is_empty() {
         None
       } else {
-- 
2.43.0


From 186dac847ba606ae545999b651cfb98df0319d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 38/45] fix: The format check names the type of the value that
 has the wrong type

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index 85e7fbe..375b414 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 47b7d27..e2e70cf 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -151,14 +151,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 6d264e5..4d0c448 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -371,7 +371,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From 049c90e19fce96e891558fe80ba9441dfbf2baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 39/45] fix: Status code matching rules for different status
 codes are not equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index c9aed02..3c572f8 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -624,6 +624,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::Include(str1), MatchingRule::Include(str2)) => str1 == str2,
       (MatchingRule::ContentType(str1), MatchingRule::ContentType(str2)) => str1 == str2,
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
       _ => mem::discriminant(self) == mem::discriminant(other)
-- 
2.43.0


From 41dc4640ed1a9260096c03403864614e19bbf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:55 +0000
Subject: [PATCH 40/45] fix: Conflicts are found between interactions that are
 stored as one in V2 pacts

---
 rust/pact_models/src/sync_pact.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 4d0c448..31c9eeb 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -281,8 +281,21 @@ impl ReadWritePact for RequestResponsePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
+      let spec_version = if pact.specification_version() < self.specification_version {
+        pact.specification_version()
+      } else {
+        self.specification_version
+      };
+      let key = |i: &RequestResponseInteraction| merge_key(&i.description, &i.provider_states, spec_version);
       let conflicts = CartesianProductIterator::new(&self.interactions, &pact.interactions())
-        .map(|(i1, i2)| i1.conflicts_with(i2.as_ref()))
+        .map(|(i1, i2)| match i2.as_request_response() {
+          // These are stored as one interaction, even if only their first provider states are equal
+          Some(i2) if key(i1) == key(&i2) => i1.conflicts_with(&RequestResponseInteraction {
+            provider_states: i1.provider_states.clone(),
+            .. i2
+          }),
+          _ => i1.conflicts_with(i2.as_ref())
+        })
         .filter(|conflicts| !conflicts.is_empty())
         .collect::<Vec<Vec<PactConflict>>>();
       let num_conflicts = conflicts.len();
@@ -307,12 +320,6 @@ impl ReadWritePact for RequestResponsePact {
         }
 
         if errors.is_empty() {
-          let spec_version = if pact.specification_version() < self.specification_version {
-            pact.specification_version()
-          } else {
-            self.specification_version
-          };
-          let key = |i: &RequestResponseInteraction| merge_key(&i.description, &i.provider_states, spec_version);
           let existing = interactions.iter().map(key).collect::<HashSet<_>>();
           interactions.extend(self.interactions.iter().filter(|i| !existing.contains(&key(i))).cloned());
           interactions.sort_by_cached_key(key);
-- 
2.43.0


From 0a471cdd922a8c6eaffe80d8067d0e018936a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:55 +0000
Subject: [PATCH 41/45] fix: Field names with quotes or backslashes are read
 back from path expressions

Paths are written with a backslash in front of quotes and backslashes in field
names, but the parser kept the backslash as part of the name and took the quote
for the end of it. Rules and generators for such fields did not apply or were lost.
---
 rust/pact_models/src/path_exp.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 2acc202..f47a3e2 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -600,7 +600,7 @@ fn path_identifier<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path
   }
 }
 
-// string_path -> [^']+
+// string_path -> ([^'\] | \' | \\)+
 fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &str, index: usize) -> Result<(), String>
   where I: Iterator<Item=(usize, char)> {
   let mut id = String::new();
@@ -610,10 +610,20 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
-      id.push(ch.1);
-      chars.next();
-      ch = next_char.unwrap();
-      next_char = peek(chars);
+      match next_char {
+        // quotes and backslashes are written with a backslash in front of them
+        Some((_, escaped)) if ch.1 == '\\' && (escaped == '\'' || escaped == '\\') => {
+          id.push(escaped);
+          chars.next();
+          next_char = peek(chars);
+        }
+        _ => id.push(ch.1)
+      }
+      if let Some(next) = next_char {
+        chars.next();
+        ch = next;
+        next_char = peek(chars);
+      }
     }
     if ch.1 == '\'' {
       if id.is_empty() {
-- 
2.43.0


From e03b35e80a2121c29e2e6b7778052db52848f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:05 +0000
Subject: [PATCH 42/45] fix: Matching rules can be created again from their
 name and values

The variants of an array contains rule were given in a form that is not read back,
and the name of the min and max type rule was not known.
---
 rust/pact_models/src/matchingrules/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 3c572f8..7dc20d5 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -299,12 +299,8 @@ impl MatchingRule {
       MatchingRule::Decimal => empty,
       MatchingRule::Null => empty,
       MatchingRule::ContentType(ct) => hashmap!{ "value" => Value::String(ct.clone()) },
-      MatchingRule::ArrayContains(variants) => hashmap! { "variants" =>
-        variants.iter().map(|(variant, rules, gens)| {
-          Value::Array(vec![json!(variant), rules.to_v3_json(), Value::Object(gens.iter().map(|(key, g)| {
-            (key.to_string(), g.to_json().unwrap())
-          }).collect())])
-        }).collect()
+      MatchingRule::ArrayContains(_) => hashmap! {
+        "variants" => self.to_json().get("variants").cloned().unwrap_or_default()
       },
       MatchingRule::Values => empty,
       MatchingRule::Boolean => empty,
@@ -379,6 +375,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From 00b87f4a189ee22bbbc10f517d9f5157e11ea15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:05 +0000
Subject: [PATCH 43/45] fix: Generators can be created again from their name
 and values

The values of the random string and provider state generators had other names than
the attributes they are read from.
---
 rust/pact_models/src/generators/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 27d122e..071ae60 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
-- 
2.43.0


From e234ac27e1c77904994eb565b90fe9ba3000a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:07 +0000
Subject: [PATCH 44/45] fix: The version that is written says which
 interactions are the same

---
 rust/pact_models/src/sync_pact.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 31c9eeb..d508b86 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -281,12 +281,7 @@ impl ReadWritePact for RequestResponsePact {
 
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
-      let spec_version = if pact.specification_version() < self.specification_version {
-        pact.specification_version()
-      } else {
-        self.specification_version
-      };
-      let key = |i: &RequestResponseInteraction| merge_key(&i.description, &i.provider_states, spec_version);
+      let key = |i: &RequestResponseInteraction| merge_key(&i.description, &i.provider_states, self.specification_version);
       let conflicts = CartesianProductIterator::new(&self.interactions, &pact.interactions())
         .map(|(i1, i2)| match i2.as_request_response() {
           // These are stored as one interaction, even if only their first provider states are equal
-- 
2.43.0


From 9453ef8b6ee1090c1c5b2aa403192e2b791a7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 45/45] fix: Bodies of responses and messages keep their
 content type when written in V4 form

---
 rust/pact_models/src/v4/async_message.rs | 3 ++-
 rust/pact_models/src/v4/http_parts.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index a478d76..ddf7f72 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -165,7 +165,8 @@ impl V4Interaction for AsynchronousMessage {
       map.insert("key".to_string(), Value::String(key.clone()));
     }
 
-    if let Value::Object(body) = self.contents.contents.to_v4_json() {
+    let contents = self.contents.contents.with_content_type_if_not_set(self.message_content_type());
+    if let Value::Object(body) = contents.to_v4_json() {
       map.insert("contents".to_string(), Value::Object(body));
     }
 
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index fa598a4..b94d811 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -530,7 +530,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0

