From 47efde1e3d95a64aecb7d071be0b3a55d97f6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:11 +0000
Subject: [PATCH 01/38] fix: keep the root of a tight point cloud on the
 minimum resolution layer

BuilderNode::new took the root scale from the spread of the data alone. For a
cloud whose spread is below scale_base^min_res_index (duplicates, one tight
cluster, a coarse min_res_index) that is below every layer, so
build() panicked with a capacity overflow.
---
 goko/src/covertree/builders.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..6993828 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -58,7 +58,11 @@ impl BuilderNode {
                 CoveredData::FirstCoveredData(FirstCoveredData::new::<D>(&parameters.point_cloud)?)
             }
         };
-        let scale_index = (covered.max_distance()).log(parameters.scale_base).ceil() as i32;
+        // There are no layers below the minimum resolution, so the root of a tight cloud sits on it.
+        let scale_index = max(
+            (covered.max_distance()).log(parameters.scale_base).ceil() as i32,
+            parameters.min_res_index,
+        );
         Ok(BuilderNode {
             parent_address: None,
             scale_index,
-- 
2.43.0


From 9f4c869985f00ce11a0ac5a99c6f24d7890613e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:40 +0000
Subject: [PATCH 02/38] fix: routing_knn went on only while whole rounds
 expanded a node

greedy_knn_nodes reported no progress when the first address it took off the
queue was a leaf, so routing_knn stopped with unvisited nodes still queued and
returned too few, or not the nearest, routing nodes.
---
 goko/src/covertree/tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..cb20acf 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -330,6 +330,8 @@ impl<D: PointCloud> CoverTreeReader<D> {
                 .get_node_and(nearest_address, |n| n.is_leaf())
                 .unwrap_or(true)
             {
+                // The address is off the queue now, so progress was made and there may be more.
+                did_something = true;
                 break;
             } else {
                 self.get_node_and(nearest_address, |n| {
-- 
2.43.0


From 2c78ca795b763272d0b0c39a32fda3614f2e3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 03/38] fix: the L1 metric took the square root of the sum of
 absolute differences

---
 pointcloud/src/metrics/l1_f32.rs  | 8 ++++----
 pointcloud/src/metrics/l1_misc.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/metrics/l1_f32.rs b/pointcloud/src/metrics/l1_f32.rs
index f082650..18127f7 100644
--- a/pointcloud/src/metrics/l1_f32.rs
+++ b/pointcloud/src/metrics/l1_f32.rs
@@ -8,25 +8,25 @@ use std::ops::Deref;
 
 impl Metric<[f32]> for L1 {
     fn dist(x: &[f32], y: &[f32]) -> f32 {
-        l1_dense_f32(x.deref(), y.deref()).sqrt()
+        l1_dense_f32(x.deref(), y.deref())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u32>> for L1 {
     fn dist(x: &RawSparse<f32, u32>, y: &RawSparse<f32, u32>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u16>> for L1 {
     fn dist(x: &RawSparse<f32, u16>, y: &RawSparse<f32, u16>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u8>> for L1 {
     fn dist(x: &RawSparse<f32, u8>, y: &RawSparse<f32, u8>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
diff --git a/pointcloud/src/metrics/l1_misc.rs b/pointcloud/src/metrics/l1_misc.rs
index f8325c8..27ebaeb 100644
--- a/pointcloud/src/metrics/l1_misc.rs
+++ b/pointcloud/src/metrics/l1_misc.rs
@@ -118,25 +118,25 @@ macro_rules! make_l1_distance {
         }
         impl Metric<[$base]> for L1 {
             fn dist(x: &[$base], y: &[$base]) -> f32 {
-                $dist_base(x.deref(), y.deref()).sqrt()
+                $dist_base(x.deref(), y.deref())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u32>> for L1 {
             fn dist(x: &RawSparse<$base, u32>, y: &RawSparse<$base, u32>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u16>> for L1 {
             fn dist(x: &RawSparse<$base, u16>, y: &RawSparse<$base, u16>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u8>> for L1 {
             fn dist(x: &RawSparse<$base, u8>, y: &RawSparse<$base, u8>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
     };
-- 
2.43.0


From 3c20ec02ad20933946d017a750df4b29373eae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 04/38] fix: an index far past the end wrapped around to
 another point of the cloud

---
 pointcloud/src/data_sources/memmap_ram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 9cf6579..55084e8 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -181,6 +181,9 @@ macro_rules! make_point_cloud {
             }
             #[inline]
             fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
+                if i >= self.len() {
+                    return Err(PointCloudError::data_access(i, self.name.clone()));
+                }
                 match self
                     .data
                     .get(self.dim * (i as usize)..(self.dim * (i as usize) + self.dim))
-- 
2.43.0


From 8b9973b319576ef38980e769bf0135c4a5b74cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 05/38] fix: a glued cloud answered a name with the index local
 to the source

---
 pointcloud/src/glued_data_cloud.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..fa806ad 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -133,10 +133,14 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                // the source answers with its own index, find the index it has in this cloud
+                for (pi, addr) in self.addresses.iter() {
+                    if *addr == (i, j) {
+                        return Ok(*pi);
+                    }
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From 1b74e52261959fd51e026af23880b20bb3cb0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 06/38] fix: a glued cloud without sources claimed not to be
 empty

---
 pointcloud/src/glued_data_cloud.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index fa806ad..e99fce0 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -99,11 +99,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
-- 
2.43.0


From 986f263081a31c3fc121415ecc9d26ecf13e42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 07/38] fix: the dense iterator of a sparse point stopped at
 its last stored value

---
 pointcloud/src/points/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index 0a78ed1..a0a8166 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -65,7 +65,10 @@ where
     type Item = f32;
     fn next(&mut self) -> Option<Self::Item> {
         let dim = self.raw.dim();
-        if self.index < dim && self.sparse_index < self.raw.len {
+        if self.index < dim && self.sparse_index >= self.raw.len {
+            self.index += 1;
+            Some(0.0)
+        } else if self.index < dim {
             let raw_si = unsafe { *self.raw.indexes_ptr.add(self.sparse_index) };
 
             let si: usize = match raw_si.try_into() {
-- 
2.43.0


From 9a1bed726a7fe48f23e1096bccba1f5ad20f291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 08/38] fix: batch distances panicked on points with more than
 300000 coordinates

---
 pointcloud/src/base_traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..b69bfd4 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -39,7 +39,7 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    min(300000 / data_dim, 100).max(1)
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From 8ef17e01af3310fff676aa2f4414423202fbc7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 09/38] fix: a vector summary did not count the first label it
 was given

---
 pointcloud/src/summaries/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..f9e282d 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,7 +94,8 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
-- 
2.43.0


From dc15ba131be10d727367b05c7c2a24dcb29c8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 10/38] fix: combining into an empty vector summary lost the
 moments

---
 pointcloud/src/summaries/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index f9e282d..4669add 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -99,6 +99,10 @@ impl Summary for VecSummary {
         }
     }
     fn combine(&mut self, other: &VecSummary) {
+        if self.moment1.is_empty() {
+            self.moment1.resize(other.moment1.len(), 0.0);
+            self.moment2.resize(other.moment2.len(), 0.0);
+        }
         self.moment1
             .iter_mut()
             .zip(&other.moment1)
-- 
2.43.0


From 7a44499728d9be80e87ae2dc2cb8ae0661fc7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 11/38] fix: vector labels reported the number of coordinates
 as their length

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..05eb4fa 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -171,7 +171,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From dc61e9df6dfb9b73c2611bd32760acd7fccd3949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 12/38] fix: merging a masked and an unmasked label source
 masked the wrong entries

---
 pointcloud/src/label_sources/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 05eb4fa..ff93f62 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -64,20 +64,21 @@ impl SmallIntLabels {
 
     /// Merges 2 labels together
     pub fn merge(&mut self, other: &Self) {
+        let unmasked = self.labels.len();
         self.labels.extend(other.labels.iter());
         let mut replace_mask = false;
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
-                .take(self.labels.len())
+            let mut mask = std::iter::repeat(true)
+                .take(unmasked)
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
-- 
2.43.0


From f199fc029d7d3d49747f245a13db34a099631afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 13/38] fix: the label 0 of a CSV file was read as unlabelled

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..c1a0a2a 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -49,7 +49,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From 457d2fc906be8e56851777000e262c608b518a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:17 +0000
Subject: [PATCH 14/38] fix: removing a point from a diagonal gaussian raised
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From 10280c1bc7276309f8424751587d0ff51ebf7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:17 +0000
Subject: [PATCH 15/38] fix: the divergence of two diagonal gaussians divided
 the variance by the other mean

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c6fa7ba..c2c437f 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -82,7 +82,7 @@ impl ContinousDistribution for DiagGaussian {
         let (trace, mah_dist, ln_det) = mean_vars
             .zip(other_mean_vars)
             .map(|((xi, yi), (ui, vi))| {
-                let trace = yi / ui;
+                let trace = yi / vi;
                 let mah_dist = (ui - xi) * (ui - xi) / vi;
                 let ln_det = vi.ln() - yi.ln();
                 (trace, mah_dist, ln_det)
-- 
2.43.0


From dcd12feb3e1c8fc58f6b795b806ffd871acdb274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:17 +0000
Subject: [PATCH 16/38] fix: the log density of a diagonal gaussian was not
 that of a gaussian

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c2c437f..bf5ee88 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -45,13 +45,13 @@ impl ContinousDistribution for DiagGaussian {
             self.count
         ));
 
-        let (exponent, det) = point
+        let (exponent, ln_det) = point
             .dense_iter()
             .zip(mean_vars)
-            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi))
-            .fold((0.0, 1.0), |(a, v), (x, u)| (a + x, v * u));
+            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi.ln()))
+            .fold((0.0, 0.0), |(a, v), (x, u)| (a + x, v + u));
 
-        Some((exponent - det + (self.dim() as f32) * (2.0 * PI).ln()) as f64)
+        Some((-(exponent + ln_det + (self.dim() as f32) * (2.0 * PI).ln()) / 2.0) as f64)
     }
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
-- 
2.43.0


From 9d3357923837a8ed63889bf30dca47ff7cc066a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:41 +0000
Subject: [PATCH 17/38] fix: a dirichlet with a total weight of at most e had
 no log probabilities

---
 goko/src/plugins/discrete/dirichlet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 73e72be..65d4042 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -69,8 +69,9 @@ impl Dirichlet {
 
     /// Gives the probability vector for this
     pub fn ln_prob_vector(&self) -> Option<(Vec<(NodeAddress, f64)>, f64)> {
-        let total_ln = self.total().ln();
-        if total_ln > 1.0 {
+        let total = self.total();
+        if total > 0.0 {
+            let total_ln = total.ln();
             let v: Vec<(NodeAddress, f64)> = self
                 .child_counts
                 .iter()
-- 
2.43.0


From 15a1347fc79f3ea9581ccc3ed6bb658b4655583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:41 +0000
Subject: [PATCH 18/38] fix: the divergence of two count summaries paired their
 categories by position

---
 goko/src/plugins/discrete/categorical.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 6761d0f..a920b0a 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -134,14 +134,25 @@ impl Categorical {
         } else {
             let ln_total = my_total.ln() - other_total.ln();
             let mut sum: f64 = 0.0;
-            if self.singleton_count > 0.0 && other.singleton_count > 0.0 {
+            if self.singleton_count > 0.0 {
+                if other.singleton_count <= 0.0 {
+                    return None;
+                }
                 sum += (self.singleton_count / my_total)
                     * (self.singleton_count.ln() - other.singleton_count.ln() - ln_total);
             }
-            for ((ca, ca_count), (other_ca, other_ca_count)) in
-                self.child_counts.iter().zip(other.child_counts.iter())
-            {
-                assert_eq!(ca, other_ca);
+            for (ca, ca_count) in self.child_counts.iter() {
+                if *ca_count <= 0.0 {
+                    continue;
+                }
+                let other_ca_count = match other.child_counts.binary_search_by_key(ca, |&(a, _)| a)
+                {
+                    Ok(ind) => other.child_counts[ind].1,
+                    Err(_) => return None,
+                };
+                if other_ca_count <= 0.0 {
+                    return None;
+                }
                 sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);
             }
             Some(sum)
-- 
2.43.0


From e8e025d4416e8fc29f6801b8fdc7cb33a8f5222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:41 +0000
Subject: [PATCH 19/38] fix: appending a tracker could leave more paths than
 the window

---
 goko/src/plugins/discrete/tracker.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 3927259..542815c 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -59,6 +59,12 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         self.sequence_queue
             .extend(other.sequence_queue.iter().cloned());
         self.sequence_count += other.sequence_count;
+        if self.window_size != 0 {
+            while self.sequence_queue.len() > self.window_size {
+                let oldest = self.sequence_queue.pop_front().unwrap();
+                self.remove_trace_from_pdfs(&oldest);
+            }
+        }
         self
     }
 
-- 
2.43.0


From 3291c2acebcb2bc7ad88f6981e01702542313e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:41 +0000
Subject: [PATCH 20/38] fix: a node no path of the window visits still counted
 as touched

---
 goko/src/plugins/discrete/tracker.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 542815c..83bd13d 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -104,12 +104,16 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         for (parent, child) in parent_address_iter.zip(child_address_iter) {
             let parent_evidence = self.running_evidence.get_mut(parent).unwrap();
             parent_evidence.remove_child_pop(Some(*child), 1.0);
+            if parent_evidence.total() <= 0.0 {
+                self.running_evidence.remove(parent);
+            }
         }
         let last = trace.last().unwrap().1;
-        self.running_evidence
-            .get_mut(&last)
-            .unwrap()
-            .remove_child_pop(None, 1.0);
+        let last_evidence = self.running_evidence.get_mut(&last).unwrap();
+        last_evidence.remove_child_pop(None, 1.0);
+        if last_evidence.total() <= 0.0 {
+            self.running_evidence.remove(&last);
+        }
     }
 
     /// Gives the probability vector for this
-- 
2.43.0


From f8390cdcaf8771dbb12f86fd726b9e93ec5172c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 21/38] fix: a baseline with one sample panicked on any longer
 sequence

---
 goko/src/plugins/discrete/baseline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index b8fac9f..6d36daa 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -195,6 +195,8 @@ impl KLDivergenceBaseline {
             Err(index) => {
                 if index == 0 {
                     KLDivergenceBaselineStats::default()
+                } else if self.sequence_len.len() == 1 {
+                    self.stats[0].to_mean_var(self.num_sequences as f64)
                 } else if index == self.sequence_len.len() {
                     let stats1 = self.stats[index - 2].to_mean_var(self.num_sequences as f64);
                     let stats2 = self.stats[index - 1].to_mean_var(self.num_sequences as f64);
-- 
2.43.0


From 74babe4f04b4e6405c8c29c71543729380acc17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 22/38] fix: path query of a far point panicked at a node with
 no child but its nested one

---
 goko/src/covertree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/node.rs b/goko/src/covertree/node.rs
index e688b25..576fd71 100644
--- a/goko/src/covertree/node.rs
+++ b/goko/src/covertree/node.rs
@@ -260,7 +260,7 @@ impl<D: PointCloud> CoverNode<D> {
                 .enumerate()
                 .min_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
                 .unwrap_or((0, &std::f32::MAX));
-            if dist_to_center < *min_dist {
+            if children.addresses.is_empty() || dist_to_center < *min_dist {
                 if dist_to_center < scale_base.powi(children.nested_scale) {
                     Ok(Some((
                         dist_to_center,
-- 
2.43.0


From d860aee61914bf56092510ff1a3d69f181943b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 23/38] fix: a nearest-neighbour query with a huge k allocates
 for the points found, not for k

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From 4ce711cb1c51c78564345e5f592f2925aac31b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:21 +0000
Subject: [PATCH 24/38] fix: a k too large for a usize is a malformed query,
 not a panic that ends the connection's worker

---
 serve_goko/src/http/service.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..f3bff8f 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -37,14 +37,14 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Option<usize> {
     lazy_static! {
         static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"].parse::<usize>().ok(),
+        None => Some(10),
     }
 }
 
@@ -73,12 +73,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri()).ok_or(GokoClientError::MalformedQuery("Unable to parse k."))?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri()).ok_or(GokoClientError::MalformedQuery("Unable to parse k."))?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
-- 
2.43.0


From 21aee763b4f33906486d35ebf548f3deec72ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:21 +0000
Subject: [PATCH 25/38] fix: a Content-Type header that is not text is a parse
 error, not a panic

---
 serve_goko/src/parsers/msgpack_dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..80160be 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -45,7 +45,7 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
+                let token = typestr.to_str().map_err(|e| GokoClientError::parse(Box::new(e)))?;
                 match token {
                     "zlib" => {
                         Readers::Zlib(DeflateDecoder::new(body_buffer))
-- 
2.43.0


From 9bd8d93e9f471cd3872bbf9f28f79bbd4d448a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:04 +0000
Subject: [PATCH 26/38] fix: a request that panics while it is processed is
 answered with an error and leaves the worker running

---
 serve_goko/src/core/internal_service.rs | 7 +++++--
 serve_goko/src/errors.rs                | 4 ++++
 serve_goko/src/http/service.rs          | 7 ++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..a867258 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -3,6 +3,7 @@ use pin_project::pin_project;
 use goko::errors::GokoError;
 use core::task::Context;
 use std::future::Future;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::pin::Pin;
 use std::task::Poll;
 
@@ -93,8 +94,10 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         tokio::spawn(async move {
             while let Some(mut msg) = request_rcv.recv().await {
                 if let Some(request) = msg.request() {
-                    let response = server.process(request);
-                    msg.respond(response);
+                    match catch_unwind(AssertUnwindSafe(|| server.process(request))) {
+                        Ok(response) => msg.respond(response),
+                        Err(_) => msg.error(InternalServiceError::Panicked),
+                    }
                 } else {
                     msg.error(InternalServiceError::DoubleRead)
                 }
diff --git a/serve_goko/src/errors.rs b/serve_goko/src/errors.rs
index e7dfb29..65493e7 100644
--- a/serve_goko/src/errors.rs
+++ b/serve_goko/src/errors.rs
@@ -10,6 +10,7 @@ pub enum InternalServiceError {
     FailedRespSend,
     DoubleRead,
     ClientDropped,
+    Panicked,
 }
 
 impl From<oneshot::error::RecvError> for InternalServiceError {
@@ -34,6 +35,7 @@ impl fmt::Display for InternalServiceError {
             FailedRespSend => f.pad("Unable to Respond, client hung up."),
             DoubleRead => f.pad("Attempted to read a message twice"),
             ClientDropped => f.pad("Client Dropped"),
+            Panicked => f.pad("The request could not be processed"),
         }
     }
 }
@@ -48,6 +50,7 @@ impl fmt::Debug for InternalServiceError {
             FailedRespSend => f.pad("FailedRespSend"),
             DoubleRead => f.pad("DoubleRead"),
             ClientDropped => f.pad("ClientDropped"),
+            Panicked => f.pad("Panicked"),
         }
     }
 }
@@ -62,6 +65,7 @@ impl Error for InternalServiceError {
             FailedRespSend => None,
             DoubleRead => None,
             ClientDropped => None,
+            Panicked => None,
         }
     }
 }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index f3bff8f..b0d01c7 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -9,8 +9,10 @@ use pointcloud::*;
 use serde::Serialize;
 use tower::load::Load;
 use tower::Service;
+use futures::FutureExt;
 
 use core::task::Context;
+use std::panic::AssertUnwindSafe;
 use std::task::Poll;
 
 use std::sync::{atomic, Arc, Mutex};
@@ -172,7 +174,10 @@ where
                 if let Some(hyper_request) = msg.request() {
                     let goko_request = parse_http(hyper_request, &mut parser).await;
                     let response = match goko_request {
-                        Ok(r) => reader.process(r).await.map_err(|e| e.into()),
+                        Ok(r) => match AssertUnwindSafe(reader.process(r)).catch_unwind().await {
+                            Ok(response) => response.map_err(|e| e.into()),
+                            Err(_) => Err(GokoClientError::Underlying(InternalServiceError::Panicked)),
+                        },
                         Err(e) => {
                             if let GokoClientError::MalformedQuery(s) = e {
                                 Ok(GokoResponse::Unknown(s.to_string(), 404))
-- 
2.43.0


From 13b9b740e2f5b5e26a046d4c7129070f7fee2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 27/38] fix: a request body of unknown length ends when its
 data ends instead of spinning the worker

---
 serve_goko/src/parsers/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..7b3ab72 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -53,6 +53,7 @@ impl<P: PointParser> PointBuffer<P> {
                 Poll::Ready(data) => data,
                 Poll::Pending => return Poll::Pending,
             };
+            let ended = new_bytes.is_none();
             if let Some(new_bytes) = new_bytes {
                 match new_bytes {
                     Ok(new_bytes) => {
@@ -72,7 +73,7 @@ impl<P: PointParser> PointBuffer<P> {
                 }
             }
 
-            if body.is_end_stream() {
+            if ended || body.is_end_stream() {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From 39b2e010322745a9cb457612f6388f08357a92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 28/38] fix: a query parameter is recognised by its whole name
 (rank=3 does not set k)

---
 serve_goko/src/http/service.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index b0d01c7..ad6e9a8 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -41,7 +41,7 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 
 fn parse_knn_query(uri: &Uri) -> Option<usize> {
     lazy_static! {
-        static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
+        static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
@@ -52,10 +52,10 @@ fn parse_knn_query(uri: &Uri) -> Option<usize> {
 
 fn parse_tracker_query(uri: &Uri) -> (Option<String>, Option<usize>) {
     lazy_static! {
-        static ref RE_TRACKER: Regex = Regex::new(r"tracker_name=(?P<tracker_name>\w+)").unwrap();
+        static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>\w+)").unwrap();
     }
     lazy_static! {
-        static ref RE_WINDOW: Regex = Regex::new(r"window_size=(?P<window_size>\d+)").unwrap();
+        static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>\d+)").unwrap();
     }
 
     let tracker_name = match uri.query().map(|s| RE_TRACKER.captures(s)).flatten() {
-- 
2.43.0


From cca272af0794a599777e15eee2cbaff4046ffe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 29/38] fix: trackers whose names differ after the first
 punctuation mark are different trackers

---
 serve_goko/src/http/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index ad6e9a8..9ae9acf 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -52,7 +52,7 @@ fn parse_knn_query(uri: &Uri) -> Option<usize> {
 
 fn parse_tracker_query(uri: &Uri) -> (Option<String>, Option<usize>) {
     lazy_static! {
-        static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>\w+)").unwrap();
+        static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>[^&]+)").unwrap();
     }
     lazy_static! {
         static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>\d+)").unwrap();
-- 
2.43.0


From 124f99e54d363f813ed46b99288d69161c0205a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:09 +0000
Subject: [PATCH 30/38] fix: a read inside a read keeps the outer read
 protected

A read through a handle that is already inside a read ended the outer
read's announcement, so the writer could change the copy the outer read
was still using.
---
 goko/src/monomap/read.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..11d33d6 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -169,6 +169,15 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
+        // a read inside another read of this handle is covered by the epoch the outer one has
+        // announced. that epoch has to stay as it is until the outer read is over.
+        let high_bit = 1usize << (mem::size_of::<usize>() * 8 - 1);
+        let announced = self.epoch.load(atomic::Ordering::Relaxed);
+        if announced != 0 && announced & high_bit == 0 {
+            let r_handle = self.inner.load(atomic::Ordering::Acquire);
+            return unsafe { r_handle.as_ref().map(f) };
+        }
+
         // so, update our epoch tracker.
         let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
         self.epoch.store(epoch + 1, atomic::Ordering::Release);
-- 
2.43.0


From 4bb2a7d3eb561af2b686f1e05ae315eb7ff87857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:09 +0000
Subject: [PATCH 31/38] fix: dropping the map waits for reads begun since the
 last refresh

The writer compared the readers' epochs with those noted at its last
refresh, so a read that began later was taken for one that had moved on
and its copy was freed under it.
---
 goko/src/monomap/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..c115f7d 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -80,11 +80,17 @@ where
         // now, wait for all readers to depart
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
-        self.wait(&mut epochs);
 
         // ensure that the subsequent epoch reads aren't re-ordered to before the swap
         atomic::fence(atomic::Ordering::SeqCst);
 
+        // the epochs noted by the last refresh say nothing about the reads that began since
+        self.last_epochs.resize(epochs.len(), 0);
+        for (i, epoch) in epochs.iter().enumerate() {
+            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
+        }
+        self.wait(&mut epochs);
+
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 658d4a8488b7e2ebe07356812c9dcea7ba9ea651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 32/38] fix: bulk queries over an empty list give no answers

---
 goko/src/query_interface/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..1751dd3 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_else(Vec::new)
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_else(Vec::new)
     }
 
     /// Bulk known path
@@ -130,7 +130,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_else(Vec::new)
     }
 }
 
-- 
2.43.0


From b73ab45c9ea549ce4ed749e53d8e2cb376283dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 33/38] fix: bulk queries over arrays take rows in any memory
 layout

---
 goko/src/query_interface/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index 1751dd3..2b4e6a3 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -120,7 +120,14 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
             .map(|(chunk_points, reader)| {
                 chunk_points
                     .iter()
-                    .map(|i| f(&reader, &points.row(*i).as_slice().unwrap()))
+                    .map(|i| {
+                        let row = points.row(*i);
+                        match row.as_slice() {
+                            Some(point) => f(&reader, &point),
+                            // a row of a transposed or strided array is not one slice
+                            None => f(&reader, &row.to_vec().as_slice()),
+                        }
+                    })
                     .collect()
             })
             .collect();
-- 
2.43.0


From 4a99b6b98fb116136ce6d8edfa5f24673229c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 34/38] fix: read the seed of a configuration file from its own
 entry

---
 goko/src/covertree/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 6993828..206dbd0 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -349,7 +349,7 @@ impl CoverTreeBuilder {
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From 95e08554bcff927b9dc6ba7167da96fb55597e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 35/38] fix: a whole-number scale base in a configuration file
 is used

---
 goko/src/covertree/builders.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 206dbd0..7ee325d 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -342,8 +342,13 @@ impl CoverTreeBuilder {
         } else {
             PartitionType::Nearest
         };
+        // a whole number is an integer to yaml
+        let scale_base = match params["scale_base"].as_i64() {
+            Some(base) => base as f64,
+            None => params["scale_base"].as_f64().unwrap_or(2.0),
+        };
         CoverTreeBuilder {
-            scale_base: params["scale_base"].as_f64().unwrap_or(2.0) as f32,
+            scale_base: scale_base as f32,
             leaf_cutoff: params["leaf_cutoff"].as_i64().unwrap_or(1) as usize,
             min_res_index: params["min_res_index"].as_i64().unwrap_or(-10) as i32,
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
-- 
2.43.0


From edc3062807f2b048698585fe3d72692929367f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:17 +0000
Subject: [PATCH 36/38] fix: a partly read sparse point announces the
 coordinates that are left

---
 pointcloud/src/points/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index a0a8166..09411bf 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -94,8 +94,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let dim = self.raw.dim();
-        (dim, Some(dim))
+        let left = self.raw.dim() - self.index;
+        (left, Some(left))
     }
 }
 
-- 
2.43.0


From 0b85cd4ead442b51194952d7595a33aecc753eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 37/38] fix: sampling a categorical or Dirichlet without weight
 draws nothing instead of panicking

---
 goko/src/plugins/discrete/categorical.rs | 9 ++++++---
 goko/src/plugins/discrete/dirichlet.rs   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index a920b0a..bfe6d47 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -109,9 +109,12 @@ impl Categorical {
 
     /// Samples from the given categorical distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let total = self.total();
+        if total <= 0.0 {
+            return None;
+        }
+        let uniform = Uniform::new(0.0, total);
+        let sample = uniform.sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 65d4042..6da9138 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -183,9 +183,12 @@ impl Dirichlet {
 
     /// Samples from the expected PDF of the Dirichlet distribution
     pub fn sample<R: Rng>(&self, rng: &mut R) -> Option<NodeAddress> {
-        let sum = self.total() as usize;
-        let uniform = Uniform::from(0..sum);
-        let sample = uniform.sample(rng) as f64;
+        let total = self.total();
+        if total <= 0.0 {
+            return None;
+        }
+        let uniform = Uniform::new(0.0, total);
+        let sample = uniform.sample(rng);
 
         let mut count = 0.0;
         for (a, c) in &self.child_counts {
-- 
2.43.0


From cea98d35e05e4265f3ee863679c360ba2e14faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 38/38] fix: sampling a Gaussian with a constant coordinate no
 longer draws NaN

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index bf5ee88..1ba0657 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -56,7 +56,7 @@ impl ContinousDistribution for DiagGaussian {
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
         let mean_iter = internal_mean!(self.moment1, self.count);
-        let std_dev_iter = internal_var!(self.moment1, self.moment2, self.count).map(|f| f.sqrt());
+        let std_dev_iter = internal_var!(self.moment1, self.moment2, self.count).map(|f| f.max(0.0).sqrt());
 
         StandardNormal
             .sample_iter(rng)
-- 
2.43.0

