From 352253db9c6fdb41110add4751a238405c356cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 01/27] fix: no 16-bit overflow when replacing the entities of
 a long text

---
 src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..45b2441 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -146,13 +146,13 @@ where
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as isize + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset += entity_text.chars().count() as isize - matched_entity.range.clone().count() as isize;
+        let range_end = (matched_entity.range.end as isize + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From 8d762c385b128e08fdd5c5200b1ad17d1f010b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 02/27] fix: an archive entry that cannot be written is an
 error, not a panic

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 45b2441..7092dd9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,7 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 2f6fae69d852de1c40aa756295119ffcb33bb8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 03/27] fix: a damaged engine in a directory whose name is not
 UTF-8 is an error, not a panic

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..c8968e9 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().to_string())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 5d24d47f4e62a6562d0ad4755f86bb8dd31b87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 04/27] fix: the alternatives of a parse never repeat its
 intent nor leave out another one

---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index c8968e9..5f2f8b5 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -212,7 +212,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From 28b7db1126a3034594e2835aee422f9f8919537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 05/27] fix: list an intent that only a later parser knows and
 scores zero

---
 src/nlu_engine.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 5f2f8b5..1be1840 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -284,22 +284,12 @@ impl SnipsNluEngine {
         let mut results = HashMap::with_capacity(nb_intents + 1);
         for parser in self.intent_parsers.iter() {
             let parser_results = parser.get_intents(input)?;
-            if results.is_empty() {
-                for res in parser_results.into_iter() {
-                    results.insert(res.intent_name.clone(), res);
-                }
-                continue;
-            }
             for res in parser_results.into_iter() {
-                let existing_score = results
-                    .get(&res.intent_name)
-                    .map(|r| r.confidence_score)
-                    .unwrap_or(0.0);
-                if res.confidence_score > existing_score {
-                    results
-                        .entry(res.intent_name.clone())
-                        .and_modify(|e| e.confidence_score = res.confidence_score)
-                        .or_insert_with(|| res);
+                let best = results
+                    .entry(res.intent_name.clone())
+                    .or_insert_with(|| res.clone());
+                if res.confidence_score > best.confidence_score {
+                    best.confidence_score = res.confidence_score;
                 }
             }
         }
-- 
2.43.0


From 8adca74d4143a1c3960a533375c625cc1c4f1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 06/27] fix: the raw value of an extracted custom slot is the
 text of the input, not its lowercase form

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 1be1840..c263061 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -445,7 +445,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 17a649b0f79f0de89d04e61ae7fc5338710edb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 07/27] fix: the intent classifier honours the whitelist for a
 single intent, an empty input and without training

---
 src/intent_classifier/log_reg_intent_classifier.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..2f4c5c5 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,9 +103,19 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let is_allowed = |intent_name: &Option<IntentName>| match (intent_name, intents_whitelist) {
+            (Some(intent), Some(whitelist)) => whitelist.contains(&intent.as_str()),
+            _ => true,
+        };
+
         if self.intent_list.len() <= 1 {
             return Ok(vec![IntentClassifierResult {
-                intent_name: self.intent_list.first().cloned().unwrap_or(None),
+                intent_name: self
+                    .intent_list
+                    .first()
+                    .cloned()
+                    .filter(&is_allowed)
+                    .unwrap_or(None),
                 confidence_score: 1.0,
             }]);
         }
@@ -114,6 +124,7 @@ impl LogRegIntentClassifier {
             return Ok(self
                 .intent_list
                 .iter()
+                .filter(|intent_name| is_allowed(*intent_name))
                 .map(|intent_name| IntentClassifierResult {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
-- 
2.43.0


From d658ee1c6f1fe366ac481312c682c6848c689fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/27] fix: an empty array of intents coming from C may have a
 null data pointer

---
 ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..54e9c06 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -408,6 +408,9 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size == 0 {
+        return Ok(vec![]);
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
         .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
-- 
2.43.0


From b648a5eb824fe24cf756e933543572d259404ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 09/27] fix: a null pointer to the zip data is an error instead
 of undefined behaviour

---
 ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 54e9c06..82d22fd 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -258,6 +258,9 @@ fn create_from_zip(
     zip_size: libc::c_uint,
     client: *mut *const CSnipsNluEngine,
 ) -> Result<()> {
+    if zip.is_null() {
+        return Err(format_err!("the pointer to the zip data is null"));
+    }
     let slice = unsafe { slice::from_raw_parts(zip, zip_size as usize) };
     let reader = Cursor::new(slice.to_owned());
     let nlu_engine = SnipsNluEngine::from_zip(reader)?;
-- 
2.43.0


From e209c6fdc4b303c7f080dcb1310b326dd823ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 10/27] fix: entity ranges are not shifted by characters whose
 lowercase form is longer

---
 src/entity_parser/builtin_entity_parser.rs |  3 ++-
 src/entity_parser/custom_entity_parser.rs  |  4 ++--
 src/utils.rs                               | 12 ++++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..ef5f0db 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -7,6 +7,7 @@ use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
 use super::utils::Cache;
 use crate::errors::*;
+use crate::utils::lowercase_with_same_char_indices;
 
 pub trait BuiltinEntityParser: Send + Sync {
     fn extract_entities(
@@ -38,7 +39,7 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_with_same_char_indices(sentence);
         if !use_cache {
             return self.parser.extract_entities(
                 &lowercased_sentence,
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..dd659b0 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -17,7 +17,7 @@ use snips_nlu_utils::token::*;
 use crate::entity_parser::utils::Cache;
 use crate::errors::*;
 use crate::language::FromLanguage;
-use crate::utils::EntityName;
+use crate::utils::{lowercase_with_same_char_indices, EntityName};
 
 pub type CustomEntity = GazetteerEntityMatch<String>;
 
@@ -72,7 +72,7 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_with_same_char_indices(sentence);
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
diff --git a/src/utils.rs b/src/utils.rs
index 7092dd9..b4f7f74 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -36,6 +36,18 @@ impl<T, I> IterOps<T, I> for I
     }
 }
 
+/// Lowercases a text while keeping its number of characters, so that a range of characters means
+/// the same in both texts ('İ' is the character whose lowercase form is made of several ones)
+pub fn lowercase_with_same_char_indices(text: &str) -> String {
+    let lowercased = text.to_lowercase();
+    if lowercased.chars().count() == text.chars().count() {
+        return lowercased;
+    }
+    text.chars()
+        .map(|c| c.to_lowercase().next().unwrap_or(c))
+        .collect()
+}
+
 pub fn deduplicate_overlapping_items<I, O, S, K>(
     items: Vec<I>,
     overlap: O,
-- 
2.43.0


From fad73ddb362fe14e873c9b33130edb790dc08046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 11/27] fix: keep the text of word clusters such as 007 which a
 number does not give back

---
 src/resources/word_clusterer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..1e6761c 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -35,10 +35,11 @@ impl HashMapWordClusterer {
             // successfully
             if u16_casting_ok {
                 match u16::from_str(elements[1].as_ref()) {
-                    Ok(u16_value) => {
+                    // The number must give back the text of the cluster, unlike e.g. "007"
+                    Ok(u16_value) if u16_value.to_string() == &elements[1] => {
                         u16_values.insert(hashed_key, u16_value);
                     }
-                    Err(_) => {
+                    _ => {
                         // A word cluster cannot be converted into a u16, let's move all the
                         // previously stored clusters into a raw string representation
                         for (hash, value) in u16_values.iter() {
-- 
2.43.0


From f73d7355ef604b3afa1a2ae9b47cbb3625c92b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 12/27] fix: a line without cluster in a word clusters file is
 an error, not a panic

---
 src/resources/word_clusterer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 1e6761c..25998f9 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::bail;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,6 +31,9 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
+            if elements.len() < 2 {
+                bail!("Missing cluster for word '{}'", &elements[0]);
+            }
             let hashed_key = hash_str_to_i32(elements[0].as_ref());
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
-- 
2.43.0


From 6ae075956576f65fb79f3b18fa6bc5c41e23a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 13/27] fix: a ragged or incomplete matrix of coefficients is
 an error, not a panic

---
 src/intent_classifier/log_reg_intent_classifier.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 2f4c5c5..601afd6 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,10 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map(|row| row.len()).unwrap_or(0);
+            if coeffs.len() != nb_classes || coeffs.iter().any(|row| row.len() != nb_features) {
+                bail!("The coefficients of the LogRegIntentClassifier do not fit its intercept");
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0


From 6a15fbce936b8ccb539e0876b38963ec0a590984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 14/27] fix: a text made of placeholders is not an instance of
 a lookup utterance

---
 src/intent_parser/lookup_intent_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..839b3b7 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -293,8 +293,10 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Option<InternalParsingResult> {
         let (intent_id, slots_ids) = output;
-        // assert invariant: length of slot ids matches that of entities
-        debug_assert!(slots_ids.len() == entities.len());
+        // a text which contains placeholders may match an utterance without having its entities
+        if slots_ids.len() != entities.len() {
+            return None;
+        }
         let intent_name = &self.intents_names[*intent_id as usize];
         if intents
             .map(|intents_list| intents_list.contains(&intent_name.as_ref()))
-- 
2.43.0


From 03c3ac15546d1ea973b400f50aec802400c792a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 15/27] fix: the lookup parser applies to each intent its own
 stop words only

---
 src/intent_parser/lookup_intent_parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 839b3b7..071893d 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -168,12 +168,12 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Result<Vec<InternalParsingResult>> {
         let mut results_per_intent = HashMap::<String, Vec<InternalParsingResult>>::new();
-        for (text_candidate, entities) in self.get_candidates(input, intents)? {
+        for (intent, text_candidate, entities) in self.get_candidates(input, intents)? {
             let candidate_key = hash_str_to_i32(&text_candidate);
             if let Some(result) = self
                 .map
                 .get(&candidate_key)
-                .and_then(|val| self.parse_map_output(input, val, entities, intents))
+                .and_then(|val| self.parse_map_output(input, val, entities, Some(&[intent])))
             {
                 if let Some(intent_name) = result.intent.intent_name.as_ref() {
                     results_per_intent
@@ -216,12 +216,13 @@ impl LookupIntentParser {
             .collect())
     }
 
+    /// The candidates depend on the stop words of an intent: they are candidates for that intent
     fn get_candidates(
         &self,
         input: &str,
         intents_whitelist: Option<&[&str]>,
-    ) -> Result<Vec<(String, Vec<MatchedEntity>)>> {
-        let mut candidates: Vec<(String, Vec<MatchedEntity>)> = Vec::new();
+    ) -> Result<Vec<(&str, String, Vec<MatchedEntity>)>> {
+        let mut candidates: Vec<(&str, String, Vec<MatchedEntity>)> = Vec::new();
         for entity_scope in self.entity_scopes.iter() {
             let intent_group: Vec<&String> = entity_scope
                 .intent_group
@@ -243,8 +244,8 @@ impl LookupIntentParser {
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
                     let cleaned_processed_text = self.preprocess_text(&processed_text, intent);
-                    candidates.push((cleaned_text, vec![]));
-                    candidates.push((cleaned_processed_text, entities.clone()));
+                    candidates.push((intent.as_str(), cleaned_text, vec![]));
+                    candidates.push((intent.as_str(), cleaned_processed_text, entities.clone()));
                 }
             }
         }
-- 
2.43.0


From 3a73374fcab4038260f8a96ee2ff92370ebc78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 16/27] fix: a tagging scheme code is not truncated before it
 is checked

---
 src/slot_filler/features.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..22d823c 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::sync::Arc;
 
 use failure::format_err;
@@ -278,8 +279,7 @@ impl Feature for CustomEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let entities = parse_as_vec_string(args, "entities")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
-        let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
+        let tagging_scheme = parse_as_tagging_scheme(args, "tagging_scheme_code")?;
         let use_stemming = parse_as_bool(args, "use_stemming")?;
         let opt_stemmer = if use_stemming {
             Some(
@@ -343,8 +343,7 @@ impl Feature for BuiltinEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let builtin_entity_labels = parse_as_vec_string(args, "entity_labels")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
-        let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
+        let tagging_scheme = parse_as_tagging_scheme(args, "tagging_scheme_code")?;
 
         builtin_entity_labels
             .into_iter()
@@ -486,6 +485,17 @@ fn parse_as_u64(args: &HashMap<String, serde_json::Value>, arg_name: &str) -> Re
         .ok_or_else(|| format_err!("'{}' isn't a u64", arg_name))?)
 }
 
+fn parse_as_tagging_scheme(
+    args: &HashMap<String, serde_json::Value>,
+    arg_name: &str,
+) -> Result<TaggingScheme> {
+    let code = parse_as_u64(args, arg_name)?;
+    // the code must not be truncated before it is checked
+    let code = u8::try_from(code)
+        .map_err(|_| format_err!("Unknown tagging scheme identifier: {}", code))?;
+    TaggingScheme::from_u8(code)
+}
+
 #[cfg(test)]
 mod tests {
     use std::iter::FromIterator;
-- 
2.43.0


From d14b7c23f7d3115d79e3ec2c435049891170fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 17/27] fix: values written with characters whose lowercase
 form is longer are recognised

---
 src/entity_parser/builtin_entity_parser.rs | 48 ++++++++++++----------
 src/entity_parser/custom_entity_parser.rs  | 14 +++++--
 src/utils.rs                               | 13 +++---
 3 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index ef5f0db..5c01935 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -7,7 +7,7 @@ use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
 use super::utils::Cache;
 use crate::errors::*;
-use crate::utils::lowercase_with_same_char_indices;
+use crate::utils::lowercase_char_indices;
 
 pub trait BuiltinEntityParser: Send + Sync {
     fn extract_entities(
@@ -39,30 +39,36 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = lowercase_with_same_char_indices(sentence);
-        if !use_cache {
-            return self.parser.extract_entities(
+        let lowercased_sentence = sentence.to_lowercase();
+        let mut entities = if !use_cache {
+            self.parser.extract_entities(
                 &lowercased_sentence,
                 filter_entity_kinds,
                 max_alternative_resolved_values,
-            );
-        }
-        let cache_key = CacheKey {
-            input: lowercased_sentence,
-            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
-            max_alternative_resolved_values,
-        };
+            )?
+        } else {
+            let cache_key = CacheKey {
+                input: lowercased_sentence,
+                kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
+                max_alternative_resolved_values,
+            };
 
-        self.cache
-            .lock()
-            .unwrap()
-            .try_cache(&cache_key, |cache_key| {
-                self.parser.extract_entities(
-                    &cache_key.input,
-                    filter_entity_kinds,
-                    max_alternative_resolved_values,
-                )
-            })
+            self.cache
+                .lock()
+                .unwrap()
+                .try_cache(&cache_key, |cache_key| {
+                    self.parser.extract_entities(
+                        &cache_key.input,
+                        filter_entity_kinds,
+                        max_alternative_resolved_values,
+                    )
+                })?
+        };
+        let char_indices = lowercase_char_indices(sentence);
+        for entity in entities.iter_mut() {
+            entity.range = char_indices[entity.range.start]..char_indices[entity.range.end - 1] + 1;
+        }
+        Ok(entities)
     }
 }
 
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index dd659b0..f4d80a5 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -17,7 +17,7 @@ use snips_nlu_utils::token::*;
 use crate::entity_parser::utils::Cache;
 use crate::errors::*;
 use crate::language::FromLanguage;
-use crate::utils::{lowercase_with_same_char_indices, EntityName};
+use crate::utils::{lowercase_char_indices, EntityName};
 
 pub type CustomEntity = GazetteerEntityMatch<String>;
 
@@ -72,14 +72,15 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = lowercase_with_same_char_indices(sentence);
+        let lowercased_sentence = sentence.to_lowercase();
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
             max_alternative_resolved_values,
         };
 
-        self.cache
+        let mut entities = self
+            .cache
             .lock()
             .unwrap()
             .try_cache(&cache_key, |cache_key| {
@@ -88,7 +89,12 @@ impl CustomEntityParser for CachingCustomEntityParser {
                     filter_entity_kinds,
                     max_alternative_resolved_values,
                 )
-            })
+            })?;
+        let char_indices = lowercase_char_indices(sentence);
+        for entity in entities.iter_mut() {
+            entity.range = char_indices[entity.range.start]..char_indices[entity.range.end - 1] + 1;
+        }
+        Ok(entities)
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index b4f7f74..efa0e3d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -36,15 +36,12 @@ impl<T, I> IterOps<T, I> for I
     }
 }
 
-/// Lowercases a text while keeping its number of characters, so that a range of characters means
-/// the same in both texts ('İ' is the character whose lowercase form is made of several ones)
-pub fn lowercase_with_same_char_indices(text: &str) -> String {
-    let lowercased = text.to_lowercase();
-    if lowercased.chars().count() == text.chars().count() {
-        return lowercased;
-    }
+/// Gives, for each character of the lowercase form of a text, the index of the character of the
+/// text it comes from ('İ' is a character whose lowercase form is made of several ones)
+pub fn lowercase_char_indices(text: &str) -> Vec<usize> {
     text.chars()
-        .map(|c| c.to_lowercase().next().unwrap_or(c))
+        .enumerate()
+        .flat_map(|(index, character)| character.to_lowercase().map(move |_| index))
         .collect()
 }
 
-- 
2.43.0


From 87d617be46f8842322f6ba803a5583a773cb86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 18/27] fix: injected values with punctuation are recognised
 whatever the parser usage

---
 src/injection/injection.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..5020fc6 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -124,7 +124,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 let normalize_entity_values = normalize_entity_value(values);
                 if engine_info.custom_entities.contains(&*entity) {
                     let stemmed_entity_values = stem_entity_value(
-                        normalize_entity_values,
+                        tokenize_entity_value(normalize_entity_values, &engine_info),
                         &engine_info,
                         &custom_parser_info,
                         maybe_stemmer,
@@ -378,6 +378,23 @@ fn normalize_entity_value(entity_values: Vec<InjectedValue>) -> Vec<GazetteerEnt
         .collect()
 }
 
+/// The custom entity parser looks for values in tokens joined with spaces
+fn tokenize_entity_value(
+    entity_values: Vec<GazetteerEntityValue>,
+    engine_info: &NluEngineInfo,
+) -> Vec<GazetteerEntityValue> {
+    entity_values
+        .into_iter()
+        .map(|value| {
+            let tokens = tokenize_light(&*value.raw_value, engine_info.language);
+            GazetteerEntityValue {
+                raw_value: tokens.into_iter().join(" "),
+                resolved_value: value.resolved_value,
+            }
+        })
+        .collect()
+}
+
 fn stem_entity_value(
     entity_values: Vec<GazetteerEntityValue>,
     engine_info: &NluEngineInfo,
-- 
2.43.0


From 45c52e175c9f85c473c1331902adfea931411695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 19/27] fix: an injection that fails for one entity leaves the
 others as they were

---
 src/injection/injection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 5020fc6..0f052b3 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -136,6 +136,8 @@ impl<P: AsRef<Path>> NluInjector<P> {
             })
             .collect::<Result<HashMap<_, _>, NluInjectionError>>()?;
 
+        // Nothing is written before all the values have been injected in memory
+        let mut injected_parsers = vec![];
         for (entity, new_entity_values) in normalized_entity_values {
             info!("Injecting values for entity '{}'", entity);
 
@@ -150,7 +152,10 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
+            injected_parsers.push((parser_dir, gazetteer_parser));
+        }
 
+        for (parser_dir, gazetteer_parser) in injected_parsers {
             fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not remove previous parser at {:?}", parser_dir),
-- 
2.43.0


From 658c0a370e2e64f11fde6bb4947b2123fffedaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 20/27] fix: a null string in an array of intents is an error,
 not a crash

---
 ffi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 82d22fd..c331889 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -416,6 +416,6 @@ unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'
     }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
-        .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
+        .map(|&ptr| Ok(CStr::raw_borrow(ptr)?.to_str().map_err(failure::Error::from)?))
         .collect::<Result<Vec<_>>>()
 }
-- 
2.43.0


From a5a37251915f6ee8db4e6a1ed44899daf3cb9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 21/27] fix: a pattern with a slot the model does not declare
 is refused on load instead of panicking on a query

---
 .../deterministic_intent_parser.rs            | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..a20cc1a 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -109,9 +109,22 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        let slot_names = &model.group_names_to_slot_names;
+        let entities = &model.slot_names_to_entities;
+        for (intent, regexes) in regexes_per_intent.iter() {
+            for group_name in regexes.iter().flat_map(|r| r.capture_names()).flatten() {
+                slot_names
+                    .get(get_slot_group(group_name))
+                    .and_then(|slot_name| entities.get(intent)?.get(slot_name))
+                    .ok_or_else(|| {
+                        format_err!("Unknown slot in a pattern of '{}': {}", intent, group_name)
+                    })?;
+            }
+        }
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
@@ -335,7 +348,7 @@ impl DeterministicIntentParser {
                     }
                 })
                 .map(|(a_match, group_name)| {
-                    let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+                    let group_name = get_slot_group(group_name);
                     let slot_name = self.group_names_to_slot_names[group_name].to_string();
                     let entity = self.slot_names_to_entities[intent][&slot_name].to_string();
                     let byte_range = a_match.start()..a_match.end();
@@ -367,6 +380,11 @@ impl DeterministicIntentParser {
     }
 }
 
+/// The group of a slot is numbered in each place where the slot occurs: 'group0_2'
+fn get_slot_group(group_name: &str) -> &str {
+    group_name.split('_').next().unwrap_or(group_name)
+}
+
 fn compile_regexes_per_intent(
     patterns: HashMap<IntentName, Vec<String>>,
 ) -> Result<HashMap<IntentName, Vec<Regex>>> {
-- 
2.43.0


From e45f78ca6a3a8c745a3636ad367eead91fac6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 22/27] fix: a lookup map that does not fit its names is
 refused on load instead of panicking on a query

---
 src/intent_parser/lookup_intent_parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 071893d..87c8e2f 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -79,6 +79,14 @@ impl LookupIntentParser {
                 )
             })
             .collect();
+        let nb_intents = model.intents_names.len();
+        let nb_slots = model.slots_names.len();
+        if model.map.values().any(|(intent_id, slots_ids)| {
+            *intent_id as usize >= nb_intents
+                || slots_ids.iter().any(|slot_id| *slot_id as usize >= nb_slots)
+        }) {
+            bail!("The map of the LookupIntentParser does not fit its intents and slots names");
+        }
         Ok(LookupIntentParser {
             language,
             slots_names: model.slots_names,
-- 
2.43.0


From 3759c07758b0be62bc12b84ba2ac770f7b641c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 23/27] fix: scores that are not numbers are an error instead
 of a panic when sorting

---
 src/intent_classifier/logreg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/intent_classifier/logreg.rs b/src/intent_classifier/logreg.rs
index d6b57a3..17e9857 100644
--- a/src/intent_classifier/logreg.rs
+++ b/src/intent_classifier/logreg.rs
@@ -1,3 +1,4 @@
+use failure::bail;
 use ndarray::prelude::*;
 use ndarray::{array, stack};
 
@@ -46,6 +47,9 @@ impl MulticlassLogisticRegression {
             .dot(&self.weights)
             .into_shape(self.nb_classes())?;
         result.mapv_inplace(logit);
+        if result.iter().any(|score| score.is_nan()) {
+            bail!("The weights are too large to compute the scores");
+        }
         if self.is_binary() {
             return Ok(arr1(&[1.0 - result[0], result[0]]));
         }
-- 
2.43.0


From ba446af2103de604a96e7ee9b6b53baf0b8b8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 24/27] fix: vectorizers whose indices do not fit are refused
 on load instead of panicking on a query

---
 src/intent_classifier/featurizer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..4c79783 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,9 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if vocabulary.values().any(|index| *index >= idf_diag.len()) {
+            bail!("The vocabulary of the TfidfVectorizer does not fit its idf diagonal");
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +220,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |index| index + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
@@ -284,11 +287,14 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if word_pairs.values().any(|index| *index >= word_pairs.len()) {
+            bail!("The word pairs of the CooccurrenceVectorizer are not numbered properly");
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
@@ -367,7 +373,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min(window_size.saturating_add(i + 1), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
-- 
2.43.0


From 20af122d9d2c94f230ab3855cf3674b3b81f07d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 25/27] fix: no overflow with huge n-gram sizes and offsets of
 features

---
 src/slot_filler/feature_processor.rs | 7 +++----
 src/slot_filler/features.rs          | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/slot_filler/feature_processor.rs b/src/slot_filler/feature_processor.rs
index 5d118ca..a52934f 100644
--- a/src/slot_filler/feature_processor.rs
+++ b/src/slot_filler/feature_processor.rs
@@ -40,10 +40,9 @@ impl ProbabilisticFeatureProcessor {
             for i in 0..input.len() {
                 if let Some(value) = offsetter.feature.compute(input, i)? {
                     offsetter.offsets_with_name().iter().for_each(|&(offset, ref key)| {
-                        if i as i32 - offset >= 0 && i as i32 - offset < input.len() as i32 {
-                            features[(i as i32 - offset) as usize].push(
-                                (key.clone(), value.clone())
-                            );
+                        let index = i as i64 - i64::from(offset);
+                        if index >= 0 && index < input.len() as i64 {
+                            features[index as usize].push((key.clone(), value.clone()));
                         }
                     });
                 }
diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index 22d823c..7f0f29b 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -150,7 +150,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if self.ngram_size > tokens.len() - token_index {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -196,7 +196,7 @@ impl Feature for ShapeNgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
+        let end = token_index.saturating_add(self.ngram_size);
         Ok(if token_index < end && end <= max_len {
             Some(
                 tokens[token_index..end]
-- 
2.43.0


From 3ccc85acf8d1c3cdfc8911d6081cfc8a2c84e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 26/27] fix: an injection that cannot be written keeps the
 previous values

---
 src/injection/injection.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 0f052b3..99b5dea 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -155,16 +155,34 @@ impl<P: AsRef<Path>> NluInjector<P> {
             injected_parsers.push((parser_dir, gazetteer_parser));
         }
 
+        // The previous parsers are replaced only once all the new ones have been written
+        let mut dumped_parsers = vec![];
         for (parser_dir, gazetteer_parser) in injected_parsers {
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
+            let temp_dir = tempfile::Builder::new()
+                .prefix("injection_")
+                .tempdir_in(parser_dir.parent().unwrap_or(parser_dir))
+                .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+                    msg: format!("could not create a directory next to {:?}", parser_dir),
+                })?;
+            let dump_dir = temp_dir.path().join("parser");
+            gazetteer_parser.dump(&dump_dir).with_context(|_| {
+                NluInjectionErrorKind::InternalInjectionError {
+                    msg: format!("failed to dump gazetteer parser in {:?}", dump_dir),
+                }
+            })?;
+            dumped_parsers.push((parser_dir, dump_dir, temp_dir));
+        }
+
+        for (parser_dir, dump_dir, _temp_dir) in dumped_parsers {
+            fs::remove_dir_all(parser_dir).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not remove previous parser at {:?}", parser_dir),
                 }
             })?;
 
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
+            fs::rename(&dump_dir, parser_dir).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
+                    msg: format!("could not move new parser to {:?}", parser_dir),
                 }
             })?;
         }
-- 
2.43.0


From f1a6869dcdcdca9e09e4f9428c8b1882e72da48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:10 +0000
Subject: [PATCH 27/27] fix: a value found in a part of a slot does not resolve
 it

---
 src/slot_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slot_utils.rs b/src/slot_utils.rs
index e7e31ba..367264b 100644
--- a/src/slot_utils.rs
+++ b/src/slot_utils.rs
@@ -59,7 +59,7 @@ pub fn resolve_custom_slot(
             )?
             .pop()
             .and_then(|entity| {
-                if entity.value.chars().count() == internal_slot.value.chars().count() {
+                if entity.range == (0..internal_slot.value.chars().count()) {
                     Some(entity)
                 } else {
                     None
-- 
2.43.0

