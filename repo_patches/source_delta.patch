From 72d58d175d60ac4b50a5fa456a78b4891317d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 01/19] fix: Bitset::disable_bit must clear the bit, not set it

---
 src/bitset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset.rs b/src/bitset.rs
index 3e36f45..046dfc5 100644
--- a/src/bitset.rs
+++ b/src/bitset.rs
@@ -49,7 +49,7 @@ impl Bitset {
     pub fn disable_bit(&mut self, index: usize) {
         let i = index / BitBlock::nbits();
         let j = index % BitBlock::nbits();
-        self.blocks[i].enable_bit(j)
+        self.blocks[i].disable_bit(j)
     }
 }
 
-- 
2.43.0


From cedca39b906a37581df52a13c69ba58d3b9b09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 02/19] fix: order high-cardinality categories by the gradients
 of the sampled examples

---
 src/dataset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 79e5b2e..1868311 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -122,10 +122,10 @@ impl <'a> InnerDataset<'a> {
 
         // collect gradient sums & counts per categorical value
         let mut grad_stat_pairs: Vec<(NumT, u32)> = vec![(0.0, 0); card];
-        for (i, j) in example_iter.into_iter().enumerate() {
+        for j in example_iter.into_iter() { // global index: `grad` and `data` cover all examples
             let category = into_cat(data[j]) as usize;
             let entry = &mut grad_stat_pairs[category];
-            entry.0 += grad[i];
+            entry.0 += grad[j];
             entry.1 += 1;
         }
 
-- 
2.43.0


From 7de2b3ca49f0610783665dd672387bd407f10ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 03/19] fix: no rank underflow when there are more bins than
 sampled examples

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 1868311..6f78309 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -143,7 +143,7 @@ impl <'a> InnerDataset<'a> {
         // extract quantiles
         let extractor = |bin: &u32| *bin;
         let rank_step = self.nactive_examples as NumT / (config.max_nbins + 1) as NumT;
-        let ranks = (1..=config.max_nbins).map(|i| (i as NumT * rank_step).round() as u32 - 1);
+        let ranks = (1..=config.max_nbins).map(|i| ((i as NumT * rank_step).round() as u32).saturating_sub(1));
         let qbins = binner.rank_iter(ranks, extractor);
         let mut last_bin = usize::max_value();
         let mut split_weights = Vec::with_capacity(config.max_nbins);
-- 
2.43.0


From 6177b78b615bbcf254e28b90cb88193135072576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 04/19] fix: allow binning of constant values (constant
 targets, equal residuals)

---
 src/binner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binner.rs b/src/binner.rs
index c6c443e..9fc587d 100644
--- a/src/binner.rs
+++ b/src/binner.rs
@@ -18,7 +18,7 @@ impl <'a, BinT> Binner<'a, BinT> {
     pub fn new(bins: &'a mut [BinT], limits: (NumT, NumT)) -> Binner<'a, BinT> {
         assert!(limits.0.is_finite());
         assert!(limits.1.is_finite());
-        assert!(limits.0 < limits.1);
+        assert!(limits.0 <= limits.1); // equal limits: everything goes in the first bin
         assert!(!bins.is_empty());
 
         let delta = (limits.1 - limits.0) / bins.len() as NumT;
-- 
2.43.0


From e41cff47dd98e38be0a888f59b75d75fa9759910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 05/19] fix: numerical examples are routed by the same test in
 training and prediction

---
 src/dataset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 6f78309..712cc1b 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -252,10 +252,12 @@ impl <'a> InnerDataset<'a> {
             //}
             //println!("NUM CAT = {} [ max={} feat_value={} < {:?}]", cat, nsplit_candidates,
             //         feat_value, split_candidates.get(cat));
-            let alt_cat = binner.bin_value(binner.get_bin(feat_value));
-            //println!("alt_cat = {}, cat = {}", alt_cat, cat);
-            //cat
-            alt_cat as usize
+            let mut cat = binner.bin_value(binner.get_bin(feat_value)) as usize;
+            // the bins only approximate: values close to a split can be off due to rounding, and
+            // must end up on the same side of the split as when predicting (value < split)
+            while cat < nsplit_candidates && !(feat_value < split_candidates[cat]) { cat += 1; }
+            while cat > 0 && feat_value < split_candidates[cat - 1] { cat -= 1; }
+            cat
         };
         Self::zero_bitvecs(&mut self.store, bitvecs);
         Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
-- 
2.43.0


From a9877afdb7a2d30a1d0f4ed133051798f907f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 06/19] fix: keep gradient sums of small histogram entries,
 sibling histograms are derived from them

---
 src/tree/learner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tree/learner.rs b/src/tree/learner.rs
index 052f369..3a8083e 100644
--- a/src/tree/learner.rs
+++ b/src/tree/learner.rs
@@ -723,7 +723,6 @@ macro_rules! build_histograms {
             let mask_store = &this.ctx.mask_store;
             let grad_store = &this.ctx.grad_store;
             let idx_store = &this.ctx.idx_store;
-            let config = this.ctx.config;
 
             //for &feat_id in this.dataset.active_features() {
             //    // For each possible split, compute left grad & count stats
@@ -732,7 +731,7 @@ macro_rules! build_histograms {
             //        let fmask = dataset.get_bitvec(feat_id, split_id);
             //        let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
             //                                                     mask_store, grad_store, idx_store,
-            //                                                     grad_bounds, config);
+            //                                                     grad_bounds);
             //        let histval = HistVal { grad_sum, example_count };
             //        let hist = this.ctx.hist_store.get_hist_mut(n2s.hists_range, feat_id);
             //        hist[split_id] = histval;
@@ -750,7 +749,7 @@ macro_rules! build_histograms {
                     let fmask = dataset.get_bitvec(feat_id, split_id);
                     let (grad_sum, example_count) = get_grad_sum(n2s, &fmask,
                                                                  mask_store, grad_store, idx_store,
-                                                                 grad_bounds, config);
+                                                                 grad_bounds);
                     let histval = HistVal { grad_sum, example_count };
                     (feat_id, split_id, histval)
                 })
@@ -806,8 +805,7 @@ macro_rules! get_grad_sum {
               mask_store: &BitBlockStore,
               grad_store: &BitBlockStore,
               idx_store: &BitBlockStore,
-              grad_bounds: (NumT, NumT),
-              config: &Config)
+              grad_bounds: (NumT, NumT))
             -> (NumT, u32)
         {
             let ems = mask_store.get_bitvec(n2s.mask_range);
@@ -815,7 +813,7 @@ macro_rules! get_grad_sum {
 
             if !n2s.compressed {
                 let count = ems.count_ones_and(&fmask) as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_unsafe(&ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
@@ -823,7 +821,7 @@ macro_rules! get_grad_sum {
             } else {
                 let indices = idx_store.get_bitvec(n2s.idx_range);
                 let count = unsafe { ems.count_ones_and_compr_unsafe(&indices, &fmask) } as u32;
-                if count < config.min_examples_leaf { return (0.0, count); }
+                if count == 0 { return (0.0, count); }
                 let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
                 let sum = $bsl::linproj(sum as NumT, count as NumT, grad_bounds);
 
-- 
2.43.0


From b8a19fe4450afa7618165146197174f0b94285fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 07/19] fix: set_feature_data replaces limits, cardinality and
 type of the feature

---
 src/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index d457d67..b15734b 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -154,6 +154,9 @@ impl Data {
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
         assert_eq!(feat.len(), self.nexamples);
+        *flim = (POS_INF, NEG_INF); // forget about the previous values of this feature
+        *card = 0;
+        self.ftypes[feat_id] = FeatType::Numerical;
         for i in 0..self.nexamples {
             let value = data[i];
             feat[i] = value;
-- 
2.43.0


From 387bc61e107c60cdac84a84c5e431be76e2d3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 08/19] fix: loading a CSV without records is an error, not a
 panic

---
 src/data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.rs b/src/data.rs
index b15734b..d142865 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -92,6 +92,8 @@ impl Data {
             record_count += 1;
         }
 
+        if record_count == 0 { return Err("CSV error: no records".to_string()); }
+
         // update feature types to high cardinality categorical if cards exceeds max_nbins
         for j in 0..record_len {
             if cards[j] > config.max_nbins {
-- 
2.43.0


From ef57028fe4155f24cfc7f6f6eefd8c095cfa2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 09/19] fix: do not truncate config values that contain '='

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 2523bd0..e82dc33 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -66,7 +66,7 @@ macro_rules! parse_config {
             }
 
             fn parse_record_str<'a>(&mut self, line: &'a str) -> Result<(), String> {
-                let mut iter = line.split('=');
+                let mut iter = line.splitn(2, '=');
                 let name = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 let value = iter.next().ok_or(format!("invalid config line: {}", line))?;
                 self.parse_record(name.trim(), value.trim())?;
-- 
2.43.0


From 711d4649f2804f9d78f6ce1abed1d3b91cb82b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 10/19] fix: sign of the Huber gradients

---
 src/objective.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/objective.rs b/src/objective.rs
index 5b21e9c..ac2d618 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -292,9 +292,9 @@ impl Objective for Huber {
             let err = targets[i] - self.predictions[i];
             let err_abs = err.abs();
             if err_abs <= self.delta {
-                self.gradients[i] = err;
+                self.gradients[i] = -err;
             } else {
-                self.gradients[i] = self.delta * err.signum();
+                self.gradients[i] = -self.delta * err.signum();
             }
         }
     }
-- 
2.43.0


From 2a03fba3b367e26cbf50edaf37a63b62eb323d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 11/19] fix: all examples are used when example sampling is
 disabled

---
 src/dataset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index 712cc1b..fd5d841 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -43,7 +43,11 @@ impl <'a> InnerDataset<'a> {
 
         let nfeatures = data.nfeatures();
         let nexamples = data.nexamples();
-        let nactive_examples = (nexamples as NumT * config.example_fraction).round() as usize;
+        let nactive_examples = if config.example_fraction < 1.0 {
+            (nexamples as NumT * config.example_fraction).round() as usize
+        } else {
+            nexamples // no rounding: not all counts can be represented by a NumT
+        };
 
         let mut bitvecs      = vec![Vec::new(); nfeatures];
         let split_candidates = vec![Vec::new(); nfeatures];
-- 
2.43.0


From 19b64ae6d59322a97e9798ef4f7eef0946a28cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 12/19] fix: sample at least one example

---
 src/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dataset.rs b/src/dataset.rs
index fd5d841..de43e1d 100644
--- a/src/dataset.rs
+++ b/src/dataset.rs
@@ -44,7 +44,7 @@ impl <'a> InnerDataset<'a> {
         let nfeatures = data.nfeatures();
         let nexamples = data.nexamples();
         let nactive_examples = if config.example_fraction < 1.0 {
-            (nexamples as NumT * config.example_fraction).round() as usize
+            ((nexamples as NumT * config.example_fraction).round() as usize).max(1).min(nexamples)
         } else {
             nexamples // no rounding: not all counts can be represented by a NumT
         };
-- 
2.43.0


From 845042fda40376e74bc52dacb4ef89615ed66721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 13/19] fix: finite prior for binary targets of a single class

---
 src/objective.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objective.rs b/src/objective.rs
index ac2d618..4cc0c36 100644
--- a/src/objective.rs
+++ b/src/objective.rs
@@ -333,6 +333,7 @@ impl Objective for Binary {
         let nneg = targets.iter().filter(|&x| *x < 0.5).count() as NumT;
         let npos = n as NumT - nneg;
         let avg  = (-1.0 * nneg + 1.0 * npos) / n as NumT;
+        let avg  = avg.max(EPSILON - 1.0).min(1.0 - EPSILON); // single class: keep prior finite
         let prior = 0.5 * ((1.0 + avg) / (1.0 - avg)).ln();
 
         self.initialize_base(config, n, prior);
-- 
2.43.0


From 2a1c12a169a0efac85a9b66e9276c8a44b599380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 14/19] fix: infinity is not a valid categorical value

---
 src/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index d142865..a280536 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -209,7 +209,7 @@ impl Data {
     }
 
     fn check_categorical_value(value: NumT) -> Result<(), String> {
-        if value.round() != value || value < 0.0 {
+        if value.round() != value || value < 0.0 || !value.is_finite() {
             Err(format!("Invalid categorical value {}", value))
         } else {
             Ok(())
-- 
2.43.0


From 5c721aa01a43e641733765ceeddc61df86273899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 15/19] fix: allow histograms without any bins (only constant
 categorical features)

---
 src/slice_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/slice_store.rs b/src/slice_store.rs
index 0be79c9..faac930 100644
--- a/src/slice_store.rs
+++ b/src/slice_store.rs
@@ -299,7 +299,8 @@ where T: Clone + Default {
 
     pub fn alloc_hists(&mut self) -> SliceRange {
         let total_bins = *self.hist_layout.last().unwrap();
-        self.slice_store.alloc_slice(total_bins, T::default())
+        let range = self.slice_store.alloc_slice(total_bins.max(1), T::default());
+        (range.0, range.0 + total_bins) // can be empty: no useful features
     }
 
     pub fn free_hists(&mut self, r: SliceRange) {
-- 
2.43.0


From 59718cceaa6b72f5ccd3baa5852a7f13e97406db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/19] fix: raise an exception in Python when a library call
 fails

---
 python/bitboost/bitboost.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 39fc3ee..7410ec7 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -97,6 +97,7 @@ class RawBitBoost:
         self._nfeatures = nfeatures
         self._nexamples = -1 # set by set_data
         self._ctx_ptr = self._rust_alloc(self._nfeatures)
+        self._check()
 
     def __del__(self):
         if self._ctx_ptr:
@@ -111,6 +112,10 @@ class RawBitBoost:
         if not self._ctx_ptr:
             raise Exception("no BitBoost context")
 
+    def _check_return(self, code):
+        if code != 0:
+            raise Exception("BitBoost call failed, see the error message of the library")
+
     def set_feature_data(self, feat_id, data, is_categorical):
         self._check()
         assert isinstance(data, np.ndarray)
@@ -120,7 +125,7 @@ class RawBitBoost:
         data = data.copy() # make copy to ensure congiguous, not optimal
         data_ptr = data.ctypes.data_as(self.numt_p)
         is_cat = 1 if is_categorical else 0
-        self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat)
+        self._check_return(self._rust_set_fdata(self._ctx_ptr, feat_id, data_ptr, is_cat))
 
     def set_data(self, data, cat_features = set()):
         self._check()
@@ -129,7 +134,7 @@ class RawBitBoost:
         assert data.shape[1] == self._nfeatures
 
         self._nexamples = data.shape[0]
-        self._rust_refresh_data(self._ctx_ptr, self._nexamples)
+        self._check_return(self._rust_refresh_data(self._ctx_ptr, self._nexamples))
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
@@ -146,7 +151,7 @@ class RawBitBoost:
                 value = ",".join(map(str, value))
         n = c_char_p(bytes(str(name), "utf8"))
         v = c_char_p(bytes(str(value), "utf8"))
-        self._rust_set_config_field(self._ctx_ptr, n, v)
+        self._check_return(self._rust_set_config_field(self._ctx_ptr, n, v))
 
     def set_config(self, values):
         self._check()
@@ -156,14 +161,14 @@ class RawBitBoost:
 
     def train(self):
         self._check()
-        self._rust_train(self._ctx_ptr)
+        self._check_return(self._rust_train(self._ctx_ptr))
 
     def predict(self):
         self._check()
         assert self._nexamples > 0
         output = np.zeros(self._nexamples, dtype=self.numt)
         output_ptr = output.ctypes.data_as(self.numt_p)
-        self._rust_predict(self._ctx_ptr, output_ptr)
+        self._check_return(self._rust_predict(self._ctx_ptr, output_ptr))
         return output
 
     def write_model(self):
-- 
2.43.0


From 017592ddde7f6beac50f53dcd960a1474c15695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 17/19] fix: convert targets and prediction inputs to the float
 type of the library

---
 python/bitboost/sklearn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bitboost/sklearn.py b/python/bitboost/sklearn.py
index aa03891..559bdf4 100644
--- a/python/bitboost/sklearn.py
+++ b/python/bitboost/sklearn.py
@@ -38,6 +38,7 @@ class BitBoost(BaseEstimator):
         """
         X, y = check_X_y(X, y, accept_sparse=False, dtype=self.numt,
                          order="F") # column-major
+        y = y.astype(self.numt)
 
         nexamples, nfeatures = X.shape
 
@@ -64,7 +65,7 @@ class BitBoost(BaseEstimator):
         y : ndarray, shape (n_samples,)
             Returns an array of predictions.
         """
-        X = check_array(X, accept_sparse=False)
+        X = check_array(X, accept_sparse=False, dtype=self.numt)
         check_is_fitted(self, "_is_fitted")
 
         self._bitboost.set_data(X)
-- 
2.43.0


From 6777fec91e1d05603da5c1cffe42f0f7a4cc6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 18/19] fix: a rejected column does not overwrite part of the
 feature

---
 src/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index a280536..546f539 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -152,6 +152,9 @@ impl Data {
         -> Result<(), String>
     {
         assert_eq!(data.len(), self.nexamples);
+        if categorical { // check first: do not leave a partly written feature behind
+            for &value in data { Self::check_categorical_value(value)?; }
+        }
         let feat = &mut self.features[feat_id];
         let flim = &mut self.limits[feat_id];
         let card = &mut self.cards[feat_id];
@@ -165,7 +168,6 @@ impl Data {
             *flim = (flim.0.min(value), flim.1.max(value));
 
             if categorical {
-                Self::check_categorical_value(value)?;
                 *card = (*card).max(1 + into_cat(value) as usize);
             }
         }
-- 
2.43.0


From ae4d430b40e74a158db7bf972161a5ba7aabf06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 19/19] fix: refuse columns of the wrong length in Python

---
 python/bitboost/bitboost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bitboost/bitboost.py b/python/bitboost/bitboost.py
index 7410ec7..16bbfc4 100644
--- a/python/bitboost/bitboost.py
+++ b/python/bitboost/bitboost.py
@@ -120,6 +120,7 @@ class RawBitBoost:
         self._check()
         assert isinstance(data, np.ndarray)
         assert data.dtype == self.numt
+        assert data.shape == (self._nexamples,) # the library reads `nexamples` values
         assert 0 <= feat_id and feat_id <= self._nfeatures
         assert isinstance(is_categorical, bool) 
         data = data.copy() # make copy to ensure congiguous, not optimal
@@ -133,8 +134,8 @@ class RawBitBoost:
         assert data.dtype == self.numt
         assert data.shape[1] == self._nfeatures
 
+        self._check_return(self._rust_refresh_data(self._ctx_ptr, data.shape[0]))
         self._nexamples = data.shape[0]
-        self._check_return(self._rust_refresh_data(self._ctx_ptr, self._nexamples))
 
         for feat_id in range(self._nfeatures):
             is_cat = feat_id in cat_features
-- 
2.43.0

