From b1500fcdf4538e658840659c9aee90c150326ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 01/23] fix: load special tokens that need escaping in JSON

Special tokens were deserialized as borrowed strings, so a saved tokenizer
with a special token containing a quote, backslash, newline or other escaped
character could not be loaded again.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From 9d24036c2e17cc0038f663720dcfb87cdc1459c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 02/23] fix: do not loop forever on an empty special token

The splitter matched the empty special token at every position without ever
advancing, so encoding never returned.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..d20799d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,7 +326,7 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
-                if suffix.starts_with(special_token) {
+                if !special_token.is_empty() && suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
                         return Some((&input[..i], false));
-- 
2.43.0


From 3f153b26c7c3231d57b0b73b7f3b707c64e969e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 03/23] fix: include byte 0xFF in generated vocabularies

The range excluded the last byte value, so only 255 of the 256 bytes were added.
---
 src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.rs b/src/generate.rs
index 5761095..072f2e5 100644
--- a/src/generate.rs
+++ b/src/generate.rs
@@ -161,7 +161,7 @@ impl VocabularyGenerator {
             .map(|(_, freq)| *freq)
             .copied()
             .unwrap_or(1);
-        let mut vocab: Vec<ScoredToken> = (0..255_u8)
+        let mut vocab: Vec<ScoredToken> = (0..=255_u8)
             .map(|b| {
                 seen.insert(vec![b]);
                 ScoredToken::from_u8(b, highest_freq as f64, true)
-- 
2.43.0


From efa39f0c7634a153786c018bf4b0f1d5cc08d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 04/23] fix: keep tokens whose score equals the filter's
 minimum

The filter is documented to remove tokens whose score is below the minimum,
but it also removed those exactly at it.
---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From 07d8b6f266bdbefdacad84df87cd2d67c8a83ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 05/23] fix: do not merge into a token that already exists

Two pairs can join into the same bytes, and a pair can join into an existing
token. Both added a second entry for the same bytes, leaving a dead id behind
and spending one of the requested merges on it.
---
 src/merge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..2f541b5 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -103,6 +103,7 @@ impl ModelVocabularyMerger {
                 let token = ScoredToken::new(value, score, false);
 
                 if token.len() > self.max_token_length
+                    || model.token_to_id(&token.value).is_some()
                     || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
                 {
                     if !ignore.contains(&pair) {
-- 
2.43.0


From f1db1d3cf2998c9a41722ae8587e4ae8b5db97dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 06/23] fix: stop merging when the last, shorter round finds no
 pair

The early exit compared the remaining merges with the step, which can never be
equal once fewer merges than a step are left, so merge looped forever when no
permitted pair remained.
---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 2f541b5..0aae820 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -126,7 +127,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From 45449efea17de5a6773be674ea36f9edb8d05cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 07/23] fix: let prune terminate when protected tokens exceed
 the target size

When the tokens that must be kept already outnumbered the size of a round, the
equality check never cut the candidates off, so nothing was pruned; and when
nothing more could be removed at all the loop never ended.
---
 src/prune.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..3c058d6 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let initial_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= initial_vocab_size {
+                log::warn!(
+                    "No more tokens can be pruned, stopping at vocab_size={}",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
@@ -307,7 +317,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From 785ca29410e20568af5d8d61fc623c443ca02d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 08/23] fix: use the token's own alternatives in the pruning
 loss

The frequency total after replacing a token grows by its frequency for every
alternative beyond the first. The length used was that of the table over the
whole vocabulary, which distorted the ranking of candidates.
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 3c058d6..7a5c518 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -286,7 +286,7 @@ impl ModelVocabularyPruner {
                 // After removing token `i`, its frequency is re-assigned
                 // to its alternatives.
                 let alt_logsum =
-                    (sum_token_frequencies + freq * (alternatives.len() - 1) as f64).ln();
+                    (sum_token_frequencies + freq * (alternatives[id].len() - 1) as f64).ln();
 
                 // The frequencies of alternatives are increased by the
                 // frequency of the removed token.
-- 
2.43.0


From 3f1424b54fed6a1d9e094fda03a59cfbb4e67127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 09/23] fix: accept a pruning loss of exactly zero

is_normal is false for zero, so prune panicked on valid data whenever removing
a token costs nothing.
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 7a5c518..86a10a0 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -298,7 +298,7 @@ impl ModelVocabularyPruner {
 
                 // The difference in likelihood after removing the token.
                 let loss = (freq / samples.len() as f64) * (logprob - alt_logprob);
-                if !loss.is_normal() {
+                if !loss.is_finite() {
                     panic!(
                         "loss is f64::NaN (loss={}, freq={}, logprob={}, alt_logprob={})",
                         loss, freq, logprob, alt_logprob
-- 
2.43.0


From 2464dbb9bb0e11eee046e75e702f7f37a8509f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 10/23] fix: find the best path when some positions are
 unreachable

viterbi gave up as soon as any token started at a position no other token ended
at, even when the sentence could be segmented around it. It also returned the
EOS node as if it was a token of the segmentation, unlike nbest.
---
 src/lattice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..3708753 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -120,6 +120,11 @@ impl<'a> Lattice<'a> {
                 let mut best_node = None;
 
                 for &lnode_idx in &self.end_nodes[pos] {
+                    // Skip nodes which cannot be reached from the BOS node.
+                    if lnode_idx != self.bos_idx && self.nodes[lnode_idx].prev.is_none() {
+                        continue;
+                    }
+
                     let score = self.nodes[lnode_idx].backtrack_score + self.nodes[rnode_idx].score;
 
                     if best_node.is_none() || score > best_score {
@@ -129,7 +134,7 @@ impl<'a> Lattice<'a> {
                 }
 
                 if best_node.is_none() {
-                    return vec![];
+                    continue;
                 }
 
                 self.nodes[rnode_idx].prev = best_node;
@@ -138,7 +143,10 @@ impl<'a> Lattice<'a> {
         }
 
         let mut results = Vec::with_capacity(sentence_len / 4);
-        let mut node_idx = self.begin_nodes[sentence_len][0];
+        let mut node_idx = match self.nodes[self.eos_idx].prev {
+            Some(last_node_idx) => last_node_idx,
+            None => return vec![],
+        };
         while let Some(prev_node_idx) = self.nodes[node_idx].prev {
             let node = self.nodes[node_idx].clone();
             results.push(node.clone());
-- 
2.43.0


From 0871c297f9713028305bf276e363828985ae67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 11/23] fix: do not count unreachable tokens in lattice
 marginals

Tokens that start where no other token ends were treated as if they were
reachable with probability one, which inflated the normalization constant and
the expected frequencies.
---
 src/lattice.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 3708753..e6187cb 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -260,8 +260,11 @@ impl<'a> Lattice<'a> {
         // (beta) of the lattice.
         // - alpha[i] is the log probability of reaching node i from the bos
         // - beta[i] is the log probability of reaching the eos from node i
-        let mut alpha = vec![0.0; num_nodes];
-        let mut beta = vec![0.0; num_nodes];
+        // Nodes which cannot be reached keep a log probability of -inf.
+        let mut alpha = vec![f64::NEG_INFINITY; num_nodes];
+        let mut beta = vec![f64::NEG_INFINITY; num_nodes];
+        alpha[self.bos_idx] = 0.0;
+        beta[self.eos_idx] = 0.0;
 
         // Calculate forward probabilities (alpha)
         for pos in 0..=len {
@@ -298,6 +301,10 @@ impl<'a> Lattice<'a> {
         let eos_idx = self.eos_idx;
         let z = alpha[eos_idx];
 
+        if z == f64::NEG_INFINITY {
+            return z;
+        }
+
         // Update the expected frequencies for each node based on its marginal
         // probability
         for pos in 0..len {
@@ -332,7 +339,7 @@ fn log_sum_exp(x: f64, y: f64, init_mode: bool) -> f64 {
     } else {
         let (vmin, vmax) = if x > y { (y, x) } else { (x, y) };
         let k_minus_log_epsilon = 50.0;
-        if vmax > vmin + k_minus_log_epsilon {
+        if vmax == f64::NEG_INFINITY || vmax > vmin + k_minus_log_epsilon {
             vmax
         } else {
             vmax + ((vmin - vmax).exp() + 1.0).ln()
-- 
2.43.0


From 0ee02d6a9d8e40ae5d207917b711a62e41be8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 12/23] fix: accept a sentence log probability of exactly zero

is_normal is false for zero, so the E-step panicked on a sentence with
probability one. An unreachable end of sentence is -inf and still detected.
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 86a10a0..1d62674 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -97,7 +97,7 @@ impl ModelVocabularyPruner {
                     model.populate_nodes(&mut lattice, self.dropout);
 
                     let z = lattice.populate_marginal(&mut expected_frequencies);
-                    if !z.is_normal() {
+                    if !z.is_finite() {
                         panic!(
                             "normalization constant is f64::NaN (z={}, len={})",
                             z,
-- 
2.43.0


From 0fb5450a0705d5b08320b36a113987343bb21c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 13/23] fix: raise when saving from Python fails

The IOError was set and then fetched and dropped, so a save that failed looked
like one that succeeded.
---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From d61e74a43cd1cc1bb02139ac4eca4b849d051b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 14/23] fix: export TokenGeeXError from the Python module

The stub declares it, but the module did not contain it, so it could not be
caught by name.
---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de145a9..b80bac1 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -218,9 +218,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From 08fff57ab9558f021dc0fec79abd8f5278ec8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 15/23] fix: make pickled Python tokenizers loadable

Unpickling calls the constructor before __setstate__, and there was none.
---
 bindings/python/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index b80bac1..140e02a 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -38,6 +38,17 @@ impl From<PyTokenGeeXError> for PyErr {
 
 #[pymethods]
 impl PyTokenizer {
+    /// Creates an empty tokenizer, which `__setstate__` fills when unpickling.
+    #[new]
+    fn new() -> Self {
+        let no_special_tokens: Vec<String> = Vec::new();
+        PyTokenizer::from(tokengeex::Tokenizer::new(
+            tokengeex::Model::default(),
+            Vec::<tokengeex::ProcessorWrapper>::new(),
+            no_special_tokens,
+        ))
+    }
+
     fn encode(&self, text: &str, dropout: f64) -> Result<Vec<TokenID>, PyTokenGeeXError> {
         self.tokenizer.encode(text, dropout).map_err(|e| e.into())
     }
-- 
2.43.0


From 2f7ccdb1bbf4666f447bd49d6d521f6788f876bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 16/23] fix: reject processors of missing or unknown type

---
 src/processor.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/processor.rs b/src/processor.rs
index 997c27b..97de948 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -84,6 +84,8 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
+
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
                         "type" => {
@@ -91,6 +93,7 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                             if value != "crlf" {
                                 return Err(serde::de::Error::unknown_variant(&value, &["crlf"]));
                             }
+                            has_type = true;
                         }
                         _ => {
                             let _: serde::de::IgnoredAny = map.next_value()?;
@@ -98,6 +101,10 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 Ok(CrlfProcessor)
             }
         }
@@ -176,10 +183,21 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
                 let mut form = None;
 
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
+                        "type" => {
+                            let value = map.next_value::<String>()?;
+                            if value != "unicode" {
+                                return Err(serde::de::Error::unknown_variant(
+                                    &value,
+                                    &["unicode"],
+                                ));
+                            }
+                            has_type = true;
+                        }
                         "form" => {
                             form = Some(map.next_value::<String>()?);
                         }
@@ -189,6 +207,10 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 let form = form.ok_or_else(|| serde::de::Error::missing_field("form"))?;
 
                 Ok(match form.as_str() {
-- 
2.43.0


From 2ebb278a43658e3f519cbbe8667485c3a64380f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 17/23] fix: do not follow unreachable nodes in the n-best
 search

---
 src/lattice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lattice.rs b/src/lattice.rs
index e6187cb..e46afd8 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -215,6 +215,11 @@ impl<'a> Lattice<'a> {
                         }
                     } else {
                         for &lnode in &self.end_nodes[node_pos] {
+                            // Skip nodes which cannot be reached from the BOS node.
+                            if lnode != self.bos_idx && self.nodes[lnode].prev.is_none() {
+                                continue;
+                            }
+
                             let top_gx = top.borrow().gx;
                             let fx = self.nodes[lnode].backtrack_score + top_gx;
                             let gx = self.nodes[lnode].score + top_gx;
-- 
2.43.0


From 9262c81244bb90aacd7d383c8d53ff986132b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 18/23] fix: keep the n best hypotheses when shrinking the
 n-best agenda

---
 src/lattice.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index e46afd8..83e646f 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -2,7 +2,7 @@
 // License: https://github.com/huggingface/tokenizers/blob/4a8105c36671ef46738d6e2799c55198139b87b2/LICENSE
 
 use std::cell::RefCell;
-use std::cmp::{min, Ordering};
+use std::cmp::{max, min, Ordering};
 use std::collections::BinaryHeap;
 use std::rc::Rc;
 
@@ -228,12 +228,13 @@ impl<'a> Lattice<'a> {
                         }
                         // When the input is too long or contains duplicated phrases,
                         // `agenda` will get extremely big. Here we avoid this case by
-                        // dynamically shrinking the agenda.
-                        let k_max_agenda_size = 100_000;
+                        // dynamically shrinking the agenda. The n best hypotheses are always
+                        // kept, as each of them leads to a different result.
+                        let k_max_agenda_size = max(100_000, n.saturating_mul(2));
                         let k_min_agenda_size = 512;
                         if agenda.len() > k_max_agenda_size {
                             let mut new_agenda = BinaryHeap::new();
-                            let len = min(k_min_agenda_size, n * 10);
+                            let len = max(min(k_min_agenda_size, n.saturating_mul(10)), n);
                             for _i in 0..len {
                                 new_agenda.push(agenda.pop().unwrap());
                             }
-- 
2.43.0


From 7f51c2302c5eac9a0c2b6b4b43308977f662bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 19/23] fix: do not overflow the stack on very long tokens

---
 src/trie.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index c68ac71..4a0062b 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -3,20 +3,30 @@
 
 use std::collections::HashMap;
 
+/// The nodes refer to each other by index, so that cloning or dropping a trie
+/// does not recurse as deep as its longest element.
 #[derive(Clone)]
 pub struct Trie<Data> {
-    root: Node<Data>,
+    /// The first node is the root.
+    nodes: Vec<Node<Data>>,
 }
 
 impl<Data: Clone> Trie<Data> {
     pub fn push(&mut self, element: &[u8], data: Data) {
-        let mut node = &mut self.root;
+        let mut node = 0;
 
         for b in element.iter() {
-            node = node.children.entry(*b).or_default();
+            let next = self.nodes.len();
+            let child = *self.nodes[node].children.entry(*b).or_insert(next);
+
+            if child == next {
+                self.nodes.push(Node::default());
+            }
+
+            node = child;
         }
 
-        node.data = Some(data);
+        self.nodes[node].data = Some(data);
     }
 
     pub fn common_prefix_search<'a, T>(
@@ -28,7 +38,8 @@ impl<Data: Clone> Trie<Data> {
         T: Iterator<Item = u8>,
     {
         TrieIterator {
-            node: &self.root,
+            nodes: &self.nodes,
+            node: &self.nodes[0],
             prefix,
             iterator,
         }
@@ -36,6 +47,7 @@ impl<Data: Clone> Trie<Data> {
 }
 
 pub struct TrieIterator<'a, 'b, Data, T> {
+    nodes: &'a [Node<Data>],
     node: &'a Node<Data>,
     prefix: &'b mut Vec<u8>,
     iterator: T,
@@ -53,7 +65,7 @@ where
             let b = self.iterator.next()?;
             self.prefix.push(b);
             self.node = match self.node.children.get(&b) {
-                Some(child) => child,
+                Some(&child) => &self.nodes[child],
                 None => return None,
             };
             if let Some(data) = &self.node.data {
@@ -66,7 +78,7 @@ where
 impl<Data> Default for Trie<Data> {
     fn default() -> Self {
         Self {
-            root: Node::default(),
+            nodes: vec![Node::default()],
         }
     }
 }
@@ -74,7 +86,7 @@ impl<Data> Default for Trie<Data> {
 #[derive(Clone)]
 struct Node<Data> {
     data: Option<Data>,
-    children: HashMap<u8, Node<Data>, fnv::FnvBuildHasher>,
+    children: HashMap<u8, usize, fnv::FnvBuildHasher>,
 }
 
 impl<Data> Default for Node<Data> {
-- 
2.43.0


From a29cd7c3627d3dbc966dead8136213bf80d497e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 20/23] fix: keep the line breaks of a pattern when it is
 composed into a file

---
 src/regex.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/regex.rs b/src/regex.rs
index 3d215a6..afce6a1 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -410,6 +410,23 @@ pub const PATTERNS: &[(&str, RegexFnPtr, &[&str], &[&str])] = &[
     ),
 ];
 
+/// Line breaks in a pattern file are layout and are dropped when it is read.
+/// Those that are part of a pattern are written as escapes instead.
+fn escape_line_breaks(regex: Regex) -> Regex {
+    let verbose = regex.as_str().split("(?").skip(1).any(|group| {
+        group
+            .chars()
+            .take_while(|c| c.is_ascii_alphabetic() || *c == '-')
+            .any(|c| c == 'x')
+    });
+
+    if verbose {
+        return regex;
+    }
+
+    Regex::new(&regex.as_str().replace('\n', "\\n").replace('\r', "\\r")).unwrap()
+}
+
 pub fn build_allow_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
@@ -417,6 +434,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
+            .map(escape_line_breaks)
             .map(|r| format!("^(?:{})$", r.as_str()))
             .collect::<Vec<String>>()
             .join("|"),
-- 
2.43.0


From bf17dd75954a0cf2ae65bb724230522e16745711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 21/23] fix: let a pattern that ends in a comment be mined
 together with others

---
 src/regex.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/regex.rs b/src/regex.rs
index afce6a1..2f78ac1 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -442,6 +442,15 @@ where
     .unwrap()
 }
 
+/// In verbose mode, a comment at the end of a pattern runs up to the end of the
+/// line. It must not hide what the pattern is composed with.
+fn end_comment(regex: Regex) -> Regex {
+    match Regex::new(&format!("(?:{})", regex.as_str())) {
+        Ok(_) => regex,
+        Err(_) => Regex::new(&format!("{}\n", regex.as_str())).unwrap(),
+    }
+}
+
 pub fn build_mine_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
@@ -449,6 +458,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
+            .map(end_comment)
             .map(|r| format!("(?:{})", r.as_str()))
             .collect::<Vec<String>>()
             .join("|"),
-- 
2.43.0


From 54e710f9a0d4a4f16954996853ffc070689b156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 22/23] fix: let patterns that name a capture group alike be
 composed and mined together

---
 src/regex.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/regex.rs b/src/regex.rs
index 2f78ac1..e7547ff 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -427,6 +427,57 @@ fn escape_line_breaks(regex: Regex) -> Regex {
     Regex::new(&regex.as_str().replace('\n', "\\n").replace('\r', "\\r")).unwrap()
 }
 
+/// Nothing refers to the capture groups of a composed pattern. Patterns may well
+/// use the same name for theirs, which they could not share.
+fn uncapture(regex: Regex) -> Regex {
+    if regex.captures_len() == 1 {
+        return regex;
+    }
+
+    let mut rest = regex.as_str();
+    let mut uncaptured = String::with_capacity(rest.len());
+    let mut class_depth = 0;
+
+    while let Some(c) = rest.chars().next() {
+        let mut len = c.len_utf8();
+
+        match c {
+            '(' if class_depth == 0 => {
+                // Within a comment, anything may follow.
+                let name_end = rest
+                    .find('>')
+                    .filter(|&end| !rest[..end].contains(char::is_whitespace));
+
+                match name_end {
+                    Some(end) if rest.starts_with("(?P<") || rest.starts_with("(?<") => {
+                        len = end + 1;
+                        uncaptured.push_str("(?:");
+                    }
+                    _ if rest.starts_with("(?") => uncaptured.push('('),
+                    _ => uncaptured.push_str("(?:"),
+                }
+
+                rest = &rest[len..];
+                continue;
+            }
+            '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
+            '[' => {
+                class_depth += 1;
+                len += rest[len..].starts_with('^') as usize;
+                // Literal where it comes first.
+                len += rest[len..].starts_with(']') as usize;
+            }
+            ']' if class_depth > 0 => class_depth -= 1,
+            _ => {}
+        }
+
+        uncaptured.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    Regex::new(&uncaptured).unwrap()
+}
+
 pub fn build_allow_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
@@ -434,6 +485,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
+            .map(uncapture)
             .map(escape_line_breaks)
             .map(|r| format!("^(?:{})$", r.as_str()))
             .collect::<Vec<String>>()
@@ -458,6 +510,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
+            .map(uncapture)
             .map(end_comment)
             .map(|r| format!("(?:{})", r.as_str()))
             .collect::<Vec<String>>()
-- 
2.43.0


From 0fa212ef3a0a7ab9193d20cba08bbd6e861097e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:58 +0000
Subject: [PATCH 23/23] fix: accept hundreds of patterns in a composed pattern
 file

---
 src/cli.rs   |  3 +--
 src/regex.rs | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index b4d7066..4134984 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -314,13 +314,12 @@ fn load_sources(sources: &[String], processors: &[ProcessorWrapper], mode: &str)
 }
 
 fn load_regex(path: &str) -> Regex {
-    Regex::new(
+    build_regex(
         std::fs::read_to_string(path)
             .unwrap()
             .replace(['\n', '\r'], "")
             .trim(),
     )
-    .unwrap()
 }
 
 fn load_fancy_regex(path: &str) -> FancyRegex {
diff --git a/src/regex.rs b/src/regex.rs
index e7547ff..38788b1 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -1,4 +1,4 @@
-use regex::Regex;
+use regex::{Regex, RegexBuilder};
 
 pub const ANY_CHAR: &str = r#"."#;
 
@@ -475,14 +475,23 @@ fn uncapture(regex: Regex) -> Regex {
         rest = &rest[len..];
     }
 
-    Regex::new(&uncaptured).unwrap()
+    build_regex(&uncaptured)
+}
+
+/// Several patterns together may well be larger than the default size limit of
+/// 10 MB.
+pub fn build_regex(regex: &str) -> Regex {
+    RegexBuilder::new(regex)
+        .size_limit(1 << 28)
+        .build()
+        .unwrap()
 }
 
 pub fn build_allow_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
 {
-    Regex::new(
+    build_regex(
         &regexes
             .into_iter()
             .map(uncapture)
@@ -491,7 +500,6 @@ where
             .collect::<Vec<String>>()
             .join("|"),
     )
-    .unwrap()
 }
 
 /// In verbose mode, a comment at the end of a pattern runs up to the end of the
@@ -507,7 +515,7 @@ pub fn build_mine_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
 {
-    Regex::new(
+    build_regex(
         &regexes
             .into_iter()
             .map(uncapture)
@@ -516,7 +524,6 @@ where
             .collect::<Vec<String>>()
             .join("|"),
     )
-    .unwrap()
 }
 
 #[cfg(test)]
-- 
2.43.0

