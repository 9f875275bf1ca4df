From 7e020e87f996d1e98b829ba9948d202756cdb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:28 +0000
Subject: [PATCH 01/56] fix: keep each reference point with its own objective
 when shuffling for Stage 2

---
 src/oqnlp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..316fff7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -919,9 +919,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         #[cfg(not(feature = "checkpointing"))]
         let mut rng: StdRng = StdRng::seed_from_u64(self.params.seed);
 
-        // Shuffle reference set if starting fresh
-        if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+        // Shuffle reference set if starting fresh, keeping each point with its own objective
+        if let Some(objectives) = ref_objectives.take() {
+            let mut pairs: Vec<(Array1<f64>, f64)> = ref_set.into_iter().zip(objectives).collect();
+            pairs.shuffle(&mut rng);
+            let (points, objectives) = pairs.into_iter().unzip();
+            ref_set = points;
+            ref_objectives = Some(objectives);
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 16805080d8a199179fc15262c65e9a3e949fb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:44 +0000
Subject: [PATCH 02/56] fix: do not overflow when the seed is close to u64::MAX

---
 src/oqnlp.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 316fff7..e73dcf4 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -911,7 +911,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
+            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
         };
@@ -1462,7 +1462,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1653,7 +1653,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Update the current seed for checkpointing
             #[cfg(feature = "checkpointing")]
             {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             let trial = trial.clone();
@@ -1845,7 +1845,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 self.current_iteration = local_iter;
                 self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             *unchanged_cycles += 1;
@@ -1925,7 +1925,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -1994,7 +1994,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -2078,7 +2078,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
+                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
-- 
2.43.0


From 355601baa5935843239a4b353523bf7ac7503ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:44 +0000
Subject: [PATCH 03/56] fix: a checkpoint save_frequency of 0 must not divide
 by zero

---
 src/oqnlp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e73dcf4..3c836f9 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1593,7 +1593,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     #[cfg(feature = "checkpointing")]
     fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let save_frequency = manager.config().save_frequency;
+            if save_frequency > 0 && self.current_iteration % save_frequency == 0 {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
-- 
2.43.0


From ca83d3789a32a3351d6d2eacc000c319b9229c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 04/56] fix: an observer callback_frequency of 0 must not
 divide by zero

---
 src/observers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..e2bdcee 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,9 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some()
+            && self.callback_frequency > 0
+            && iteration % self.callback_frequency == 0
     }
 }
 
-- 
2.43.0


From 1b367fe805982532b8e5945a59227709e8fe4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 05/56] fix: a batch size of 0 must not panic in chunks()

---
 src/oqnlp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 3c836f9..651fd22 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -942,7 +942,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let effective_batch_size = if !self.enable_parallel {
             1 // Force sequential when parallel processing is disabled
         } else {
-            self.batch_iterations.unwrap_or_else(|| {
+            // A batch size of 0 means no batching, like 1
+            self.batch_iterations.map(|size| size.max(1)).unwrap_or_else(|| {
                 // Use a more intelligent default: balance between overhead and parallelism
                 let thread_count = rayon::current_num_threads();
                 let remaining_iterations = self.params.iterations.saturating_sub(start_iter);
-- 
2.43.0


From f80cc22397b474d4f11cff5b0b7c02814a8328fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 06/56] fix: respect the callback frequency for a single local
 search in a parallel batch

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 651fd22..b1543b7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2043,9 +2043,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 660b3f1362fd487a1aa466bb2d2865cf142469f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 07/56] fix: stop a stage's total time when the stage has ended

---
 src/observers/stage1.rs | 8 +++-----
 src/observers/stage2.rs | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..8a4384c 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -121,6 +121,7 @@ impl Stage1State {
     /// Start Stage 1 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 1 and calculate total time
@@ -262,11 +263,8 @@ impl Stage1State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 1 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        // Once the stage has ended its total time is fixed
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get total number of function evaluations
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..e7ab490 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -122,6 +122,7 @@ impl Stage2State {
     /// Start Stage 2 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 2 and calculate total time
@@ -348,11 +349,8 @@ impl Stage2State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 2 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        // Once the stage has ended its total time is fixed
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get the best solution coordinates found so far
-- 
2.43.0


From 880bbb61a6d1e0e101c857effd0fb433a0e634bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 08/56] fix: count the objective evaluations of Stage 1 trial
 points

---
 src/scatter_search.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..21c444b 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -779,6 +780,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
+        let evaluations = AtomicUsize::new(0);
         let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
             if !constraints.is_empty() && !is_feasible(point, &constraints) {
                 return None;
@@ -793,6 +795,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -808,6 +811,16 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        // Report the objective evaluations made for the trial points
+        let evaluations = evaluations.into_inner();
+        if let Some(ref mut obs) = self.observer {
+            if obs.should_observe_stage1() {
+                if let Some(stage1) = obs.stage1_mut() {
+                    stage1.add_function_evaluations(evaluations);
+                }
+            }
+        }
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From 7a4ad7f6e1d7f05f0d318df249f90c24c4abc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:27 +0000
Subject: [PATCH 09/56] fix: order NaN objectives of either sign after every
 number

---
 python/src/lib.rs     |  9 ++++++++-
 src/oqnlp.rs          | 15 +++++++++------
 src/scatter_search.rs | 22 +++++++++++++---------
 src/types.rs          | 10 +++++++++-
 4 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..37797fa 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -310,7 +310,14 @@ impl PySolutionSet {
     /// :returns: The solution with the lowest objective function value, or None if the set is empty
     /// :rtype: PyLocalSolution or None
     fn best_solution(&self) -> Option<PyLocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective)).cloned()
+        // NaN objectives, whatever their sign, come after all numbers
+        self.solutions
+            .iter()
+            .min_by(|a, b| {
+                let (a, b) = (a.objective, b.objective);
+                a.is_nan().cmp(&b.is_nan()).then_with(|| a.total_cmp(&b))
+            })
+            .cloned()
     }
 
     /// Returns the solution at the given index.
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index b1543b7..d6bf9dd 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -130,7 +130,7 @@ use crate::local_solver::runner::LocalSolver;
 use crate::observers::Observer;
 use crate::problem::Problem;
 use crate::scatter_search::ScatterSearch;
-use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet};
+use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet, compare_objectives};
 #[cfg(feature = "checkpointing")]
 use crate::{
     checkpoint::{CheckpointError, CheckpointManager},
@@ -753,11 +753,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         stage1.enter_substage("scatter_search_complete");
                         stage1.set_reference_set_size(ref_set.len());
                         // Find the best solution and its coordinates
-                        // Use total_cmp which provides total ordering (NaN > all values)
+                        // Total ordering with NaN > all values
                         if let Some((best_idx, &best_obj)) = ref_objectives
                             .iter()
                             .enumerate()
-                            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                            .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                         {
                             stage1.set_best_solution(best_obj, &ref_set[best_idx]);
                         }
@@ -1927,7 +1927,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                        self.current_seed =
+                            self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -1996,7 +1997,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                        self.current_seed =
+                            self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
@@ -2082,7 +2084,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     {
                         self.current_iteration = local_iter;
                         self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                        self.current_seed =
+                            self.params.seed.wrapping_add(self.current_iteration as u64);
                     }
 
                     self.merit_filter.update_threshold(obj);
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 21c444b..e208ce8 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -44,7 +44,7 @@
 
 use crate::observers::Observer;
 use crate::problem::Problem;
-use crate::types::OQNLPParams;
+use crate::types::{OQNLPParams, compare_objectives};
 use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
@@ -412,7 +412,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-        points_with_objectives.sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        points_with_objectives.sort_unstable_by(|a, b| compare_objectives(a.1, b.1));
 
         let (sorted_points, sorted_objectives): (Vec<Array1<f64>>, Vec<f64>) =
             points_with_objectives.into_iter().unzip();
@@ -797,7 +797,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
             evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
-            if obj < worst_obj { Some((point.clone(), obj)) } else { None }
+            if compare_objectives(obj, worst_obj).is_lt() {
+                Some((point.clone(), obj))
+            } else {
+                None
+            }
         };
 
         #[cfg(feature = "rayon")]
@@ -845,13 +849,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let k = ((pop_size as f64).sqrt() as usize).max(2).min(pop_size);
 
         // Partition so the k best elements are at the front (these will be the global best k)
-        all_points.select_nth_unstable_by(k - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(k - 1, |a, b| compare_objectives(a.1, b.1));
 
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
-        all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        all_points[..k].sort_unstable_by(|a, b| compare_objectives(a.1, b.1));
 
         // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(pop_size - 1, |a, b| compare_objectives(a.1, b.1));
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
@@ -868,14 +872,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             self.reference_set_objectives
                 .par_iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         } else {
             self.reference_set_objectives
                 .iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         };
@@ -885,7 +889,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .reference_set_objectives
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+            .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
             .map(|(idx, _)| idx)
             .ok_or(ScatterSearchError::NoCandidates)?;
 
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..b053217 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -300,7 +300,7 @@ impl SolutionSet {
 
     /// Returns the best solution in the set based on the objective function value.
     pub fn best_solution(&self) -> Option<&LocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective))
+        self.solutions.iter().min_by(|a, b| compare_objectives(a.objective, b.objective))
     }
 
     /// Returns an iterator over the solutions in the set.
@@ -777,6 +777,14 @@ impl fmt::Display for OQNLPCheckpoint {
     }
 }
 
+/// Order objective values from best to worst
+///
+/// Numbers are ordered as usual and every NaN, whatever its sign bit, comes after all numbers
+/// (`f64::total_cmp` alone puts negative NaNs first).
+pub(crate) fn compare_objectives(a: f64, b: f64) -> std::cmp::Ordering {
+    a.is_nan().cmp(&b.is_nan()).then_with(|| a.total_cmp(&b))
+}
+
 #[cfg(test)]
 mod tests_types {
     use super::*;
-- 
2.43.0


From 3519871514c1341b6152733a3685e66bd7e632c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 10/56] fix: a NaN or infinite local solution must not block
 later numeric ones

---
 src/filters.rs | 3 ++-
 src/oqnlp.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..482db1b 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -131,7 +131,8 @@ impl MeritFilter {
     }
 
     pub fn update_threshold(&mut self, threshold: f64) {
-        self.threshold = threshold;
+        // Nothing compares with NaN: keep it from rejecting every later value
+        self.threshold = if threshold.is_nan() { f64::INFINITY } else { threshold };
     }
 
     /// Check if the given value is below the threshold
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index d6bf9dd..8b8cf5e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1118,9 +1118,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj2 = current_best.objective;
 
         let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        let tol = if obj1.is_finite() && obj2.is_finite() {
+            abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()))
+        } else {
+            0.0 // A tolerance relative to an infinite value would accept anything
+        };
 
-        let added: bool = if obj1 < obj2 - tol {
+        let added: bool = if obj1 < obj2 - tol || (obj2.is_nan() && !obj1.is_nan()) {
             // Found new best solution
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
-- 
2.43.0


From 2b141648a0900ef5d5e5d991998e3b9bf2abe616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 11/56] fix: accept the documented minimum population size of 3

---
 src/oqnlp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 8b8cf5e..0b5b335 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -436,7 +436,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     ///
     /// If the `wait_cycle` parameter is greater than or equal to the `iterations` parameter, a warning is printed.
     pub fn new(problem: P, params: OQNLPParams) -> Result<Self, OQNLPError> {
-        if params.population_size <= 3 {
+        if params.population_size < 3 {
             return Err(OQNLPError::InvalidPopulationSize(params.population_size));
         }
 
-- 
2.43.0


From 44272dc4103cebf753ad5d3aee8d2011a9bcd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 12/56] fix: refuse NaN threshold and distance factors

---
 src/filters.rs | 2 +-
 src/oqnlp.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index 482db1b..355b2b5 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -209,7 +209,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 0b5b335..8dc506e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -444,7 +444,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
-- 
2.43.0


From a4eed95ce3e4cf8f260fa26c78974a7faa2a210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:08 +0000
Subject: [PATCH 13/56] fix: NaN coordinates are not within bounds

---
 src/oqnlp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 8dc506e..e3f443b 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -662,7 +662,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if value.is_nan() || value < lower || value > upper {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1067,7 +1067,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            if value.is_nan() || value < lower_bound || value > upper_bound {
                 return false;
             }
         }
-- 
2.43.0


From 429884171661e5d85dd83624699695ae877e5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 14/56] fix: report bounds that are not finite as InvalidBounds
 instead of panicking

---
 src/scatter_search.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e208ce8..8be9d17 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -119,7 +119,7 @@ pub enum ScatterSearchError {
     ///
     /// Includes dimension and which bounds are invalid
     #[error(
-        "Scatter Search Error: Invalid bounds for variable {dimension}: lower={lower}, upper={upper}. Lower bound must be < upper bound."
+        "Scatter Search Error: Invalid bounds for variable {dimension}: lower={lower}, upper={upper}. Bounds must be finite and lower bound must be < upper bound."
     )]
     InvalidBounds { dimension: usize, lower: f64, upper: f64 },
 }
@@ -164,7 +164,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // A range that is not finite cannot be sampled
+            if !(bounds.upper[i] - bounds.lower[i]).is_finite()
+                || bounds.lower[i] >= bounds.upper[i]
+            {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
-- 
2.43.0


From 6e117c457b7e4b5e6e52af32b11a8f2257efa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 15/56] fix: find a checkpoint saved at iteration 0 in archive
 mode

---
 src/checkpoint.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..94de02c 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -312,8 +312,7 @@ impl CheckpointManager {
             })?;
         let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
-        let mut latest_path = None;
+        let mut latest: Option<(usize, PathBuf)> = None;
 
         for entry in entries {
             let entry = entry.map_err(|e| CheckpointError::IoError {
@@ -327,16 +326,15 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
-                            latest_path = Some(path);
+                        if latest.as_ref().is_none_or(|(current, _)| iteration > *current) {
+                            latest = Some((iteration, path));
                         }
                     }
                 }
             }
         }
 
-        latest_path.ok_or_else(|| CheckpointError::CheckpointNotFound {
+        latest.map(|(_, path)| path).ok_or_else(|| CheckpointError::CheckpointNotFound {
             path: self.config.checkpoint_dir.clone(),
         })
     }
-- 
2.43.0


From 18d62a0584236ed4c4bf824609efed6a517ffe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 16/56] fix: write checkpoints atomically

---
 src/checkpoint.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 94de02c..0afa98b 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -245,11 +245,21 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
-            operation: "write".to_string(),
-            path: filepath.clone(),
-            source: e,
-        })?;
+        // Write to a temporary file first, so that an interrupted or failed write never damages
+        // an existing checkpoint
+        let mut temp_path = filepath.clone().into_os_string();
+        temp_path.push(".tmp");
+        let temp_path = PathBuf::from(temp_path);
+        fs::write(&temp_path, encoded).and_then(|_| fs::rename(&temp_path, &filepath)).map_err(
+            |e| {
+                let _ = fs::remove_file(&temp_path);
+                CheckpointError::IoError {
+                    operation: "write".to_string(),
+                    path: filepath.clone(),
+                    source: e,
+                }
+            },
+        )?;
 
         Ok(filepath)
     }
-- 
2.43.0


From 847ba9dd0179926f8e149ec417c3179f7b1003a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:49 +0000
Subject: [PATCH 17/56] fix: a damaged length in a checkpoint file must not
 exhaust memory

---
 src/checkpoint.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 0afa98b..74e21d8 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -290,16 +290,7 @@ impl CheckpointManager {
             path: path.to_path_buf(),
             source: e,
         })?;
-        let (checkpoint, _): (OQNLPCheckpoint, usize) =
-            bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
-                .map_err(BincodeError::DecodeError)
-                .map_err(|e| CheckpointError::SerializationError {
-                    operation: "decode".to_string(),
-                    path: path.to_path_buf(),
-                    source: e,
-                })?;
-
-        Ok(checkpoint)
+        decode_checkpoint(&encoded, path)
     }
 
     /// Check if a checkpoint exists
@@ -434,16 +425,28 @@ pub fn read_checkpoint_file(path: &Path) -> Result<OQNLPCheckpoint, CheckpointEr
         path: path.to_path_buf(),
         source: e,
     })?;
-    let (checkpoint, _): (OQNLPCheckpoint, usize) =
-        bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
-            .map_err(BincodeError::DecodeError)
-            .map_err(|e| CheckpointError::SerializationError {
-                operation: "decode".to_string(),
-                path: path.to_path_buf(),
-                source: e,
-            })?;
+    decode_checkpoint(&encoded, path)
+}
 
-    Ok(checkpoint)
+/// Decode the contents of a checkpoint file
+///
+/// A damaged length field must not make the decoder reserve more memory than a file of this size
+/// can need, so all but unusually large files are decoded with a limit.
+fn decode_checkpoint(encoded: &[u8], path: &Path) -> Result<OQNLPCheckpoint, CheckpointError> {
+    const LIMIT: usize = 64 * 1024 * 1024;
+
+    let config = bincode::config::legacy();
+    let decoded = if encoded.len() <= LIMIT {
+        bincode::serde::decode_from_slice(encoded, config.with_limit::<LIMIT>())
+    } else {
+        bincode::serde::decode_from_slice(encoded, config)
+    };
+
+    decoded.map(|(checkpoint, _)| checkpoint).map_err(|e| CheckpointError::SerializationError {
+        operation: "decode".to_string(),
+        path: path.to_path_buf(),
+        source: BincodeError::DecodeError(e),
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From d57768e8f72b061cffe31d606733965ecf3bf137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:19 +0000
Subject: [PATCH 18/56] fix: checkpoint the reference set in the order the
 trials are processed

---
 src/oqnlp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e3f443b..fcb69ed 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -926,6 +920,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let (points, objectives) = pairs.into_iter().unzip();
             ref_set = points;
             ref_objectives = Some(objectives);
+
+            // Store the reference set in trial order for checkpointing
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 65e29c47d267cd8330874a7d310a19c231f23cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:51 +0000
Subject: [PATCH 19/56] fix: save checkpoints of completed trials only, so that
 resuming repeats and skips none

---
 src/oqnlp.rs | 85 +++++++++++++---------------------------------------
 1 file changed, 20 insertions(+), 65 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fcb69ed..401f2b3 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -904,10 +904,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Use the saved seed when resuming from checkpoint
             StdRng::seed_from_u64(self.current_seed)
         } else {
-            // Start fresh with base seed + current iteration
-            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            self.current_seed = seed;
-            StdRng::seed_from_u64(seed)
+            // Start fresh with base seed
+            self.current_iteration = 0;
+            self.unchanged_cycles = 0;
+            self.current_seed = self.params.seed;
+            StdRng::seed_from_u64(self.params.seed)
         };
 
         #[cfg(not(feature = "checkpointing"))]
@@ -1006,6 +1007,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 )?;
             }
 
+            // Record the completed trials and save a checkpoint if enabled and due
+            #[cfg(feature = "checkpointing")]
+            if let Some(&(last_iter, _)) = batch.last() {
+                let previous_iteration = self.current_iteration;
+                self.current_iteration = last_iter + 1;
+                self.unchanged_cycles = unchanged_cycles;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+                self.maybe_save_checkpoint(previous_iteration)?;
+            }
+
             // Check if target objective has been reached after processing the batch
             if self.target_objective_reached() {
                 if self.verbose {
@@ -1596,10 +1607,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
     /// Save a checkpoint if checkpointing is enabled and conditions are met
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
+            // Due when a multiple of `save_frequency` completed iterations has been reached
             let save_frequency = manager.config().save_frequency;
-            if save_frequency > 0 && self.current_iteration % save_frequency == 0 {
+            if save_frequency > 0
+                && self.current_iteration / save_frequency > previous_iteration / save_frequency
+            {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1650,18 +1664,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1774,10 +1776,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            // Save checkpoint if enabled and conditions are met
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
         Ok(())
     }
@@ -1847,13 +1845,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1885,9 +1876,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1927,14 +1915,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed =
-                            self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1990,21 +1970,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed =
-                            self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2074,9 +2043,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2084,14 +2050,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed =
-                            self.params.seed.wrapping_add(self.current_iteration as u64);
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2117,9 +2075,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
-- 
2.43.0


From 61a848162784331717b0f7381c4512dbffb4812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:51 +0000
Subject: [PATCH 20/56] fix: do not process further trials when resuming after
 the target was reached

---
 src/oqnlp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 401f2b3..cfc4d7f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -962,9 +962,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let effective_batch_size = 1; // Always sequential when rayon is not available
 
         // Process Stage 2 iterations in batches
-        let trials_to_process: Vec<_> =
+        let mut trials_to_process: Vec<_> =
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
+        // A resumed run may already have reached its target before it was interrupted
+        if resumed_from_checkpoint && self.target_objective_reached() {
+            trials_to_process.clear();
+        }
+
         for batch in trials_to_process.chunks(effective_batch_size) {
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
-- 
2.43.0


From 000a53c51d7951152f32254d63fe5b13acb0f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 21/56] fix: run() continues from a state resumed with modified
 parameters

---
 src/oqnlp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index cfc4d7f..9d11670 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -408,6 +408,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
 
+    /// State was restored from a checkpoint and the next run continues from it
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Observer for tracking algorithm state and metrics
     observer: Option<Observer>,
 
@@ -491,6 +495,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             start_time: None,
             #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
+            #[cfg(feature = "checkpointing")]
+            resume_pending: false,
             observer: None,
             custom_points: None,
             abs_tol: 1e-8,
@@ -688,7 +694,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Try to resume from checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint = self.resume_pending || self.try_resume_from_checkpoint()?;
+        #[cfg(feature = "checkpointing")]
+        {
+            self.resume_pending = false;
+        }
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1572,6 +1582,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
+        // Continue from this state in the next run
+        self.resume_pending = true;
+
         if self.verbose {
             println!(
                 "Resumed from checkpoint at iteration {} with {} solutions",
-- 
2.43.0


From ba4f3443a737088a90f4d9fcac984c1c1a617afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 22/56] fix: restore the distance filter and local solver
 settings from the checkpoint

---
 src/oqnlp.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 9d11670..edd1cd9 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1547,6 +1547,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn restore_from_checkpoint(&mut self, checkpoint: OQNLPCheckpoint) -> Result<(), OQNLPError> {
         let solution_count = checkpoint.solution_set.as_ref().map_or(0, |s| s.len());
 
+        // The filter and the local solver follow the restored parameters
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: checkpoint.params.distance_factor,
+            wait_cycle: checkpoint.params.wait_cycle,
+            threshold_factor: checkpoint.params.threshold_factor,
+        })?;
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            checkpoint.params.local_solver_type.clone(),
+            checkpoint.params.local_solver_config.clone(),
+        );
+
         self.params = checkpoint.params;
         self.current_iteration = checkpoint.current_iteration;
         self.merit_filter.update_threshold(checkpoint.merit_threshold);
-- 
2.43.0


From cc60d790ea5cc906525ccd947938ae3658e4119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 23/56] fix: expand the reference set also when resuming from a
 specific file

---
 src/oqnlp.rs | 76 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index edd1cd9..aa7ba3e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1424,38 +1424,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Keep the old params for comparison
                 let old_iterations = checkpoint.params.iterations;
-                let old_population_size = checkpoint.params.population_size;
 
                 // Handle population size changes
-                if new_params.population_size != old_population_size {
-                    if new_params.population_size > old_population_size {
-                        self.expand_reference_set(
-                            &mut checkpoint.reference_set,
-                            old_population_size,
-                            new_params.population_size,
-                        )?;
-
-                        if self.verbose {
-                            println!(
-                                "Expanded reference set from {} to {} points",
-                                old_population_size, new_params.population_size
-                            );
-                        }
-                    } else {
-                        // Population size decreased, issue warning but continue
-                        eprintln!(
-                            "Warning: New population size ({}) is smaller than original ({}). Using original reference set with {} points.",
-                            new_params.population_size, old_population_size, old_population_size
-                        );
-
-                        if self.verbose {
-                            println!(
-                                "Keeping original reference set size of {} points despite smaller population_size parameter",
-                                old_population_size
-                            );
-                        }
-                    }
-                }
+                self.adapt_reference_set(&mut checkpoint, &new_params)?;
 
                 // Update with new parameters
                 checkpoint.params = new_params.clone();
@@ -1475,6 +1446,48 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         Ok(false)
     }
 
+    /// Adapt the reference set of a checkpoint to the population size of new parameters
+    #[cfg(feature = "checkpointing")]
+    fn adapt_reference_set(
+        &self,
+        checkpoint: &mut OQNLPCheckpoint,
+        new_params: &OQNLPParams,
+    ) -> Result<(), OQNLPError> {
+        let old_population_size = checkpoint.params.population_size;
+
+        if new_params.population_size != old_population_size {
+            if new_params.population_size > old_population_size {
+                self.expand_reference_set(
+                    &mut checkpoint.reference_set,
+                    old_population_size,
+                    new_params.population_size,
+                )?;
+
+                if self.verbose {
+                    println!(
+                        "Expanded reference set from {} to {} points",
+                        old_population_size, new_params.population_size
+                    );
+                }
+            } else {
+                // Population size decreased, issue warning but continue
+                eprintln!(
+                    "Warning: New population size ({}) is smaller than original ({}). Using original reference set with {} points.",
+                    new_params.population_size, old_population_size, old_population_size
+                );
+
+                if self.verbose {
+                    println!(
+                        "Keeping original reference set size of {} points despite smaller population_size parameter",
+                        old_population_size
+                    );
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     /// Expand the reference set to a larger population size
     ///
     /// This method generates additional points to expand an existing reference set
@@ -1525,6 +1538,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Keep the old params for comparison
             let old_iterations = checkpoint.params.iterations;
 
+            // Handle population size changes
+            self.adapt_reference_set(&mut checkpoint, &new_params)?;
+
             // Update with new parameters
             checkpoint.params = new_params.clone();
 
-- 
2.43.0


From 568c7dcea1bc613a81613680c489af6ef4a1e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 24/56] fix: an observer restricted to Stage 1 records nothing
 about Stage 2

---
 src/oqnlp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index aa7ba3e..ccfd49f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1158,8 +1158,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
@@ -1180,8 +1182,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
-- 
2.43.0


From dffa5e2c585e28d4e63e6a3150d2800aaa095d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 25/56] fix: a resumed run does not report Stage 1 as in
 progress

---
 src/oqnlp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index ccfd49f..2548b5b 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -715,6 +715,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 if self.verbose {
                     println!("Resuming from checkpoint at iteration {}", self.current_iteration);
                 }
+                // Stage 1 is not run, so there is nothing to show about it
+                if let Some(ref mut observer) = self.observer {
+                    observer.mark_stage1_complete();
+                }
                 let ref_set = self.current_reference_set.clone().unwrap_or_default();
                 let unchanged_cycles = self.unchanged_cycles;
                 // No pre-computed objectives when resuming from checkpoint
-- 
2.43.0


From 45a8d61d37ee962b1a2cc3d543f1a1c51d131895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:17 +0000
Subject: [PATCH 26/56] fix: measure near-zero distances the same way
 sequentially and in parallel

---
 src/scatter_search.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 8be9d17..533609c 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -617,8 +617,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                     let dist = euclidean_distance_squared(point, p);
                     if dist < min_dist {
                         min_dist = dist;
-                        // Early termination if points are essentially identical
-                        if dist < 1e-14 {
+                        // Early termination, no distance can be smaller
+                        if dist == 0.0 {
                             return 0.0;
                         }
                     }
@@ -633,8 +633,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let dist = euclidean_distance_squared(point, p);
                 if dist < min_dist {
                     min_dist = dist;
-                    // Early termination if points are essentially identical
-                    if dist < 1e-14 {
+                    // Early termination, no distance can be smaller
+                    if dist == 0.0 {
                         return 0.0;
                     }
                 }
-- 
2.43.0


From a9b9b50ea44727a72c962a2b057bbfeccf6b97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 27/56] fix: sum the sampled distances in a fixed order

---
 src/scatter_search.rs | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 533609c..e165e15 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -743,29 +743,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let k = ((ref_set.len() as f64).sqrt() as usize).max(2).min(ref_set.len());
                 let sample_size = k;
 
-                #[cfg(feature = "rayon")]
-                let sum_dist = if self.enable_parallel {
-                    (0..sample_size)
-                        .into_par_iter()
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                } else {
-                    (0..sample_size)
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                };
-
-                #[cfg(not(feature = "rayon"))]
+                // Summed in a fixed order, so that the result does not depend on scheduling
                 let sum_dist = (0..sample_size)
                     .map(|i| {
                         euclidean_distance_squared(&ref_set[i], &ref_set[(i + 1) % ref_set.len()])
-- 
2.43.0


From 6351d86983a4d0fef21b64e1f6409af18f52850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 28/56] fix: Newton-CG with Hager-Zhang line search honours
 curvature threshold and tolerance

---
 src/local_solver/runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..20e3a4a 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -921,7 +921,12 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From e2767907998a0e100856cbf4f21c1edb53c4e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:22 +0000
Subject: [PATCH 29/56] fix: a constraint value that is not a number does not
 count as satisfied

---
 src/scatter_search.rs | 3 ++-
 src/types.rs          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e165e15..54c2274 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -914,7 +914,8 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        // A value that is not a number does not satisfy the constraint
+        if value.is_nan() || value < 0.0 {
             return false;
         }
     }
diff --git a/src/types.rs b/src/types.rs
index b053217..33cea4d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -354,10 +354,10 @@ impl SolutionSet {
 
                     // Format constraint status
                     let status = if constraint_value >= 0.0 { "✓" } else { "✗" };
-                    let violation = if constraint_value < 0.0 {
-                        format!(" (violated by {:.6})", -constraint_value)
-                    } else {
+                    let violation = if constraint_value >= 0.0 {
                         " (satisfied)".to_string()
+                    } else {
+                        format!(" (violated by {:.6})", -constraint_value)
                     };
 
                     // Add constraint description if provided
-- 
2.43.0


From 7b82b08e54751f651b746dc58cc5e81f27c2c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:49 +0000
Subject: [PATCH 30/56] fix: the observer shows the threshold, unchanged cycles
 and iteration the run has reached

---
 src/oqnlp.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2548b5b..5c08006 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1026,6 +1026,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 )?;
             }
 
+            // Observer: the whole batch is completed
+            if let (Some(observer), Some(&(last_iter, _))) = (&mut self.observer, batch.last()) {
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_iteration(last_iter);
+                        stage2.set_unchanged_cycles(unchanged_cycles);
+                        stage2.set_threshold_value(self.merit_filter.threshold);
+                    }
+                }
+            }
+
             // Record the completed trials and save a checkpoint if enabled and due
             #[cfg(feature = "checkpointing")]
             if let Some(&(last_iter, _)) = batch.last() {
@@ -1824,6 +1835,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 }
             }
 
+            // Observer: Show the state after this iteration
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_unchanged_cycles(*unchanged_cycles);
+                        stage2.set_threshold_value(self.merit_filter.threshold);
+                    }
+                }
+            }
+
             // Invoke observer callback if set and frequency matches
             if let Some(ref mut observer) = self.observer {
                 if observer.should_invoke_callback(local_iter) {
-- 
2.43.0


From 0d66f90faf21c5061b70d48e7522fe173c5b5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:47 +0000
Subject: [PATCH 31/56] fix: a local search that finds a new best solution
 counts as improving

---
 src/oqnlp.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 5c08006..f9ba3f4 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1116,6 +1116,19 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         true
     }
 
+    /// Objective value of the best solution found so far
+    fn best_objective(&self) -> Option<f64> {
+        self.solution_set.as_ref().and_then(|set| set.best_solution()).map(|best| best.objective)
+    }
+
+    /// Check if the best solution is better than it was
+    fn best_improved_on(&self, previous: Option<f64>) -> bool {
+        match (self.best_objective(), previous) {
+            (Some(current), Some(previous)) => compare_objectives(current, previous).is_lt(),
+            _ => false,
+        }
+    }
+
     /// Process a local solution, updating the best solution and filters
     fn process_local_solution(&mut self, solution: LocalSolution) -> Result<bool, OQNLPError> {
         let abs_tol = self.abs_tol;
@@ -1780,13 +1793,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let previous_best = self.best_objective();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                let improved = added || self.best_improved_on(previous_best);
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1991,13 +2006,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    let improved = added || self.best_improved_on(previous_best);
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2064,13 +2081,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    let improved = added || self.best_improved_on(previous_best);
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 47910716e344ff5446585dafc446301fc962ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:12 +0000
Subject: [PATCH 32/56] fix: the observer shows the unchanged cycles of a
 resumed run from the start of Stage 2

---
 src/oqnlp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index f9ba3f4..d32a578 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -883,6 +883,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         stage2.set_solution_set_size(sol_set.len());
                     }
                     stage2.set_threshold_value(self.merit_filter.threshold);
+                    stage2.set_unchanged_cycles(unchanged_cycles);
                 }
             }
             // Mark Stage 2 as started to enable logging
-- 
2.43.0


From 480c2ecab39e084a181626966454d0f25c66672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:54 +0000
Subject: [PATCH 33/56] fix: L-BFGS with L1 regularization reports the
 objective value, not the penalized one

---
 src/local_solver/runner.rs | 61 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 20e3a4a..b243e49 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -239,6 +239,21 @@ impl<P: Problem> LocalSolver<P> {
             line_search_params,
         } = solver_config
         {
+            // With L1 regularization the solver's cost includes the penalty term, the reported
+            // objective must not
+            let objective_at = |point: &Array1<f64>, best_cost: f64| {
+                if l1_coefficient.is_none() {
+                    return Ok(best_cost);
+                }
+                if let Some(counter) = &eval_count {
+                    counter.fetch_add(1, Ordering::Relaxed);
+                }
+                self.problem.objective(point).map_err(|e| LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason: e.to_string(),
+                })
+            };
+
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
@@ -280,18 +295,17 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solution = LocalSolution {
-                        point: res
-                            .state()
-                            .best_param
-                            .as_ref()
-                            .ok_or(LocalSolverError::NoSolution {
-                                solver_type: "unknown".to_string(),
-                                iterations: 0,
-                            })?
-                            .clone(),
-                        objective: res.state().best_cost,
-                    };
+                    let point = res
+                        .state()
+                        .best_param
+                        .as_ref()
+                        .ok_or(LocalSolverError::NoSolution {
+                            solver_type: "unknown".to_string(),
+                            iterations: 0,
+                        })?
+                        .clone();
+                    let objective = objective_at(&point, res.state().best_cost)?;
+                    let solution = LocalSolution { point, objective };
                     let evaluations =
                         eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
                     Ok((solution, evaluations))
@@ -355,18 +369,17 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solution = LocalSolution {
-                        point: res
-                            .state()
-                            .best_param
-                            .as_ref()
-                            .ok_or(LocalSolverError::NoSolution {
-                                solver_type: "unknown".to_string(),
-                                iterations: 0,
-                            })?
-                            .clone(),
-                        objective: res.state().best_cost,
-                    };
+                    let point = res
+                        .state()
+                        .best_param
+                        .as_ref()
+                        .ok_or(LocalSolverError::NoSolution {
+                            solver_type: "unknown".to_string(),
+                            iterations: 0,
+                        })?
+                        .clone();
+                    let objective = objective_at(&point, res.state().best_cost)?;
+                    let solution = LocalSolution { point, objective };
                     let evaluations =
                         eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
                     Ok((solution, evaluations))
-- 
2.43.0


From 7e4ab816f27a5f0977b420b52be81cfe56714b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:54 +0000
Subject: [PATCH 34/56] fix: Newton-CG line search settings are reported as a
 Newton-CG configuration error

---
 src/local_solver/runner.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index b243e49..04da734 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -856,15 +856,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -910,27 +910,27 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-- 
2.43.0


From e4c44434f492f2aa5da816b3a709d2d563d885a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:20 +0000
Subject: [PATCH 35/56] fix: line search bounds that are not a pair are a
 configuration error, not a panic

---
 src/local_solver/runner.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 04da734..faf3983 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -86,6 +86,18 @@ use thiserror::Error;
 
 // TODO: Do not repeat code in the linesearch branch, use helper function?
 
+/// Minimum and maximum step of a line search
+#[cfg(feature = "argmin")]
+fn step_bounds(bounds: &Array1<f64>) -> Result<(f64, f64), String> {
+    if bounds.len() != 2 {
+        return Err(format!(
+            "Line search bounds must have 2 elements, minimum and maximum step, got {}",
+            bounds.len()
+        ));
+    }
+    Ok((bounds[0], bounds[1]))
+}
+
 #[derive(Error, Debug, PartialEq)]
 /// Local solver error enum
 pub enum LocalSolverError {
@@ -257,12 +269,14 @@ impl<P: Problem> LocalSolver<P> {
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds)
+                        .map_err(|reason| LocalSolverError::InvalidLBFGSConfig { reason })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
@@ -319,6 +333,8 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds)
+                        .map_err(|reason| LocalSolverError::InvalidLBFGSConfig { reason })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
@@ -340,7 +356,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
                         })?;
@@ -540,12 +556,15 @@ impl<P: Problem> LocalSolver<P> {
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|reason| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason }
+                    })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
@@ -589,6 +608,9 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds).map_err(|reason| {
+                        LocalSolverError::InvalidSteepestDescentConfig { reason }
+                    })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
@@ -610,7 +632,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
                             reason: e.to_string(),
                         })?;
@@ -854,12 +876,14 @@ impl<P: Problem> LocalSolver<P> {
         {
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
+                    let (step_min, step_max) = step_bounds(bounds)
+                        .map_err(|reason| LocalSolverError::InvalidNewtonCG { reason })?;
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
                         .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
@@ -908,6 +932,8 @@ impl<P: Problem> LocalSolver<P> {
                     eta,
                     bounds,
                 } => {
+                    let (step_min, step_max) = step_bounds(bounds)
+                        .map_err(|reason| LocalSolverError::InvalidNewtonCG { reason })?;
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
                         .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
@@ -929,7 +955,7 @@ impl<P: Problem> LocalSolver<P> {
                         .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
-                        .with_bounds(bounds[0], bounds[1])
+                        .with_bounds(step_min, step_max)
                         .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
-- 
2.43.0


From c5bfbc36ea66dc99640cabdaaab8abacc8270bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:31 +0000
Subject: [PATCH 36/56] fix: COBYLA evaluation limits beyond 32 bits are not
 truncated

---
 src/local_solver/runner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index faf3983..65751ac 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1062,7 +1062,8 @@ impl<P: Problem> LocalSolver<P> {
                 &bounds,
                 &constraint_funcs,
                 (),
-                *max_iter as usize,
+                // The solver counts evaluations with 32 bits
+                (*max_iter).min(i32::MAX as u64) as usize,
                 cobyla::RhoBeg::All(*initial_step_size),
                 Some(cobyla::StopTols {
                     ftol_rel: *ftol_rel,
-- 
2.43.0


From 2255a154bd8838e19ca19fb895004b594604ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 37/56] fix: COBYLA xtol_abs of the wrong length is a
 configuration error, not a panic

---
 src/local_solver/runner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 65751ac..5935072 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1053,6 +1053,16 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
+            if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "xtol_abs must be empty or have one element per variable: expected {}, got {}",
+                        x0.len(),
+                        xtol_abs.len()
+                    ),
+                });
+            }
+
             let bounds: Vec<(f64, f64)> =
                 (0..x0.len()).map(|i| (problem_bounds[[i, 0]], problem_bounds[[i, 1]])).collect();
 
-- 
2.43.0


From 4aa3a92b772c4cfff834f17328ae9ea78889fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 38/56] fix: parameters given for a resumed run are validated
 like those of a new one

---
 src/oqnlp.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index d32a578..1666932 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -440,17 +440,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     ///
     /// If the `wait_cycle` parameter is greater than or equal to the `iterations` parameter, a warning is printed.
     pub fn new(problem: P, params: OQNLPParams) -> Result<Self, OQNLPError> {
-        if params.population_size < 3 {
-            return Err(OQNLPError::InvalidPopulationSize(params.population_size));
-        }
-
-        if params.iterations > params.population_size {
-            return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
-        }
-
-        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
-            return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
-        }
+        Self::validate_params(&params)?;
 
         if params.wait_cycle >= params.iterations {
             eprintln!(
@@ -504,6 +494,23 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         })
     }
 
+    /// Check the parameters that do not depend on the problem
+    fn validate_params(params: &OQNLPParams) -> Result<(), OQNLPError> {
+        if params.population_size < 3 {
+            return Err(OQNLPError::InvalidPopulationSize(params.population_size));
+        }
+
+        if params.iterations > params.population_size {
+            return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
+        }
+
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
+            return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
+        }
+
+        Ok(())
+    }
+
     /// Add an observer to track algorithm state
     ///
     /// The observer will track metrics during the optimization process,
@@ -1451,6 +1458,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         &mut self,
         new_params: OQNLPParams,
     ) -> Result<bool, OQNLPError> {
+        Self::validate_params(&new_params)?;
+
         if let Some(ref manager) = self.checkpoint_manager {
             if manager.checkpoint_exists() {
                 let mut checkpoint = manager.load_latest_checkpoint()?;
@@ -1565,6 +1574,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         checkpoint_path: &std::path::Path,
         new_params: OQNLPParams,
     ) -> Result<(), OQNLPError> {
+        Self::validate_params(&new_params)?;
+
         if let Some(ref manager) = self.checkpoint_manager {
             let mut checkpoint = manager.load_checkpoint_from_path(checkpoint_path)?;
 
-- 
2.43.0


From b56de9eaafbd3069e846eae001be0625c9c57970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:13 +0000
Subject: [PATCH 39/56] fix: custom points with a non-standard memory layout do
 not panic in constrained runs

---
 src/scatter_search.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 54c2274..5340896 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -909,6 +909,8 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
         return true;
     }
 
+    // Custom points may have any memory layout
+    let point = point.as_standard_layout();
     let x_slice = point.as_slice().expect("Failed to convert point to slice");
 
     // Early exit on first violation for performance
-- 
2.43.0


From 7efd15dd10f2849dfc85ee0f7c9ead5bdc68c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 40/56] fix: COBYLA initial step sizes that are zero or not
 finite are a configuration error, not an endless search

---
 src/local_solver/runner.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 5935072..c2dcd82 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1053,6 +1053,15 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
+            // The solver cannot start with such a step, or never ends
+            if !initial_step_size.is_finite() || *initial_step_size == 0.0 {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "Initial step size must be finite and not zero, got {initial_step_size}"
+                    ),
+                });
+            }
+
             if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
                 return Err(LocalSolverError::InvalidCOBYLAConfig {
                     reason: format!(
-- 
2.43.0


From 8169c3c87f044a9127c14b146e284f87d09f224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:05 +0000
Subject: [PATCH 41/56] fix: an L-BFGS history longer than the run does not
 overflow the solver's memory

---
 src/local_solver/runner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index c2dcd82..ab49bdf 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -266,6 +266,10 @@ impl<P: Problem> LocalSolver<P> {
                 })
             };
 
+            // No more than one entry is stored per iteration, do not reserve memory beyond that
+            let history_size =
+                (*history_size).min(usize::try_from(*max_iter).unwrap_or(usize::MAX));
+
             // Match line search method
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
@@ -285,7 +289,7 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let mut solver = LBFGS::new(linesearch, *history_size)
+                    let mut solver = LBFGS::new(linesearch, history_size)
                         .with_tolerance_cost(*tolerance_cost)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
@@ -361,7 +365,7 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let mut solver = LBFGS::new(linesearch, *history_size)
+                    let mut solver = LBFGS::new(linesearch, history_size)
                         .with_tolerance_cost(*tolerance_cost)
                         .map_err(|e: Error| LocalSolverError::InvalidLBFGSConfig {
                             reason: e.to_string(),
-- 
2.43.0


From df224ef49e64d86ab7fa7e9e35a7258316fe1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:47 +0000
Subject: [PATCH 42/56] fix: COBYLA searches of functions that fail or are not
 a number report real values and points

---
 src/local_solver/runner.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index ab49bdf..d45b39d 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1010,6 +1010,7 @@ impl<P: Problem> LocalSolver<P> {
         solver_config: &LocalSolverConfig,
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
+        use std::cell::{Cell, RefCell};
         use std::sync::{
             Arc,
             atomic::{AtomicU64, Ordering},
@@ -1033,14 +1034,33 @@ impl<P: Problem> LocalSolver<P> {
                 if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
             let eval_count_for_closure = eval_count.clone();
 
+            // Outcome of the objective calls: whether one returned a number, and the last failure
+            let found_number = Cell::new(false);
+            let last_failure = RefCell::new(None);
+
             // Create the objective function for COBYLA (needs 2 arguments: x and user_data)
-            let objective = move |x: &[f64], _user_data: &mut ()| -> f64 {
+            let objective = |x: &[f64], _user_data: &mut ()| -> f64 {
+                // The solver may produce such points from infinite objective values
+                if x.iter().any(|value| value.is_nan()) {
+                    return f64::INFINITY;
+                }
                 if let Some(ref counter) = eval_count_for_closure {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
                 let point = Array1::from_vec(x.to_vec());
 
-                self.problem.objective(&point).unwrap_or(f64::INFINITY)
+                match self.problem.objective(&point) {
+                    // The solver cannot compare NaN values
+                    Ok(value) if value.is_nan() => f64::INFINITY,
+                    Ok(value) => {
+                        found_number.set(true);
+                        value
+                    }
+                    Err(e) => {
+                        last_failure.replace(Some(e));
+                        f64::INFINITY
+                    }
+                }
             };
 
             let constraint_funcs = self.problem.constraints();
@@ -1096,6 +1116,17 @@ impl<P: Problem> LocalSolver<P> {
                 }),
             ) {
                 Ok((_status, solution_x, objective_value)) => {
+                    // Without a single number there is no objective value to report
+                    let objective_value = match last_failure.take() {
+                        _ if found_number.get() => objective_value,
+                        Some(e) => {
+                            return Err(LocalSolverError::RunFailed {
+                                solver_type: "unknown".to_string(),
+                                reason: format!("COBYLA solver failed: {e}"),
+                            });
+                        }
+                        None => f64::NAN,
+                    };
                     let solution_point = Array1::from_vec(solution_x);
                     let solution =
                         LocalSolution { point: solution_point, objective: objective_value };
-- 
2.43.0


From e725ce4af26bbab1ee6cd892d8c4fc4f7b64c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 43/56] fix: an objective failing on the initial simplex is an
 error of the Nelder-Mead search, not a panic

---
 src/local_solver/runner.rs | 44 ++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index d45b39d..3720848 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -421,13 +421,17 @@ impl<P: Problem> LocalSolver<P> {
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
-            Arc,
-            atomic::{AtomicU64, Ordering},
+            Arc, Mutex,
+            atomic::{AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            // Evaluations of the initial simplex still to be made, and the first failure there:
+            // the solver would panic on an error at this point
+            initial_evaluations: AtomicUsize,
+            initial_failure: Arc<Mutex<Option<String>>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -435,15 +439,40 @@ impl<P: Problem> LocalSolver<P> {
             type Output = f64;
 
             fn cost(&self, param: &Self::Param) -> std::result::Result<Self::Output, Error> {
+                let initial = self
+                    .initial_evaluations
+                    .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |n| n.checked_sub(1))
+                    .is_ok();
+                let mut failure = self.initial_failure.lock().unwrap();
+                if let Some(reason) = failure.as_ref() {
+                    return if initial {
+                        Ok(f64::INFINITY)
+                    } else {
+                        Err(Error::msg(reason.clone()))
+                    };
+                }
+
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
-                self.problem.objective(param).map_err(|e| Error::msg(e.to_string()))
+                match self.problem.objective(param) {
+                    Err(e) if initial => {
+                        *failure = Some(e.to_string());
+                        Ok(f64::INFINITY)
+                    }
+                    result => result.map_err(|e| Error::msg(e.to_string())),
+                }
             }
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let initial_failure = Arc::new(Mutex::new(None));
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            initial_evaluations: AtomicUsize::new(initial_point.len() + 1),
+            initial_failure: initial_failure.clone(),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -493,6 +522,13 @@ impl<P: Problem> LocalSolver<P> {
                     reason: e.to_string(),
                 })?;
 
+            if let Some(reason) = initial_failure.lock().unwrap().take() {
+                return Err(LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason,
+                });
+            }
+
             let solution = LocalSolution {
                 point: res
                     .state()
-- 
2.43.0


From 2cbc12954118c54b14388ce3853c42061811d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:40 +0000
Subject: [PATCH 44/56] fix: a COBYLA search that ends where the objective
 failed returns the best point it evaluated

---
 src/local_solver/runner.rs | 55 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 3720848..2f141fc 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1046,7 +1046,7 @@ impl<P: Problem> LocalSolver<P> {
         solver_config: &LocalSolverConfig,
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
-        use std::cell::{Cell, RefCell};
+        use std::cell::RefCell;
         use std::sync::{
             Arc,
             atomic::{AtomicU64, Ordering},
@@ -1070,8 +1070,12 @@ impl<P: Problem> LocalSolver<P> {
                 if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
             let eval_count_for_closure = eval_count.clone();
 
-            // Outcome of the objective calls: whether one returned a number, and the last failure
-            let found_number = Cell::new(false);
+            let constraint_funcs = self.problem.constraints();
+            let problem_bounds = self.problem.variable_bounds();
+
+            // Outcome of the objective calls: the best point with a number (those that satisfy the
+            // constraints first), and the last failure
+            let best_evaluated: RefCell<Option<(bool, f64, Array1<f64>)>> = RefCell::new(None);
             let last_failure = RefCell::new(None);
 
             // Create the objective function for COBYLA (needs 2 arguments: x and user_data)
@@ -1089,7 +1093,16 @@ impl<P: Problem> LocalSolver<P> {
                     // The solver cannot compare NaN values
                     Ok(value) if value.is_nan() => f64::INFINITY,
                     Ok(value) => {
-                        found_number.set(true);
+                        let mut best = best_evaluated.borrow_mut();
+                        if best.as_ref().is_none_or(|b| !b.0 || value < b.1) {
+                            let feasible = constraint_funcs.iter().all(|c| c(x, &mut ()) >= 0.0);
+                            if best
+                                .as_ref()
+                                .is_none_or(|b| feasible > b.0 || (feasible == b.0 && value < b.1))
+                            {
+                                *best = Some((feasible, value, point));
+                            }
+                        }
                         value
                     }
                     Err(e) => {
@@ -1099,9 +1112,6 @@ impl<P: Problem> LocalSolver<P> {
                 }
             };
 
-            let constraint_funcs = self.problem.constraints();
-            let problem_bounds = self.problem.variable_bounds();
-
             if problem_bounds.nrows() != x0.len() {
                 return Err(LocalSolverError::InvalidCOBYLAConfig {
                     reason: format!(
@@ -1152,20 +1162,25 @@ impl<P: Problem> LocalSolver<P> {
                 }),
             ) {
                 Ok((_status, solution_x, objective_value)) => {
-                    // Without a single number there is no objective value to report
-                    let objective_value = match last_failure.take() {
-                        _ if found_number.get() => objective_value,
-                        Some(e) => {
-                            return Err(LocalSolverError::RunFailed {
-                                solver_type: "unknown".to_string(),
-                                reason: format!("COBYLA solver failed: {e}"),
-                            });
-                        }
-                        None => f64::NAN,
+                    let mut solution = LocalSolution {
+                        point: Array1::from_vec(solution_x),
+                        objective: objective_value,
                     };
-                    let solution_point = Array1::from_vec(solution_x);
-                    let solution =
-                        LocalSolution { point: solution_point, objective: objective_value };
+                    // The search may end at a point where the objective failed or is not a number
+                    if objective_value == f64::INFINITY {
+                        match (best_evaluated.take(), last_failure.take()) {
+                            (Some((_, objective, point)), _) => {
+                                solution = LocalSolution { point, objective };
+                            }
+                            (None, Some(e)) => {
+                                return Err(LocalSolverError::RunFailed {
+                                    solver_type: "unknown".to_string(),
+                                    reason: format!("COBYLA solver failed: {e}"),
+                                });
+                            }
+                            (None, None) => solution.objective = f64::NAN,
+                        }
+                    }
                     let evaluations =
                         eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
                     Ok((solution, evaluations))
-- 
2.43.0


From d0e28b3e3d81764a3079c4b650546736a18c10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 45/56] fix: malformed bounds, points, gradients and Hessians
 from Python are a ValueError, not a panic or a reshaped array

---
 python/src/lib.rs | 78 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 37797fa..8311b67 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -108,6 +108,13 @@ fn get_constraint_functions(num_constraints: usize) -> Vec<fn(&[f64], &mut ()) -
     functions
 }
 
+// A ValueError about a Python function of a problem, caused by the given exception
+fn value_error(py: Python, message: String, cause: PyErr) -> PyErr {
+    let error = PyValueError::new_err(format!("{message}: {cause}"));
+    error.set_cause(py, Some(cause));
+    error
+}
+
 #[pyclass]
 #[derive(Debug, Clone)]
 /// Parameters for the OQNLP global optimization algorithm.
@@ -506,6 +513,9 @@ pub struct PyProblem {
     /// :raises ValueError: If any constraint function does not return a float
     constraints: Option<Py<pyo3::PyAny>>,
 
+    /// Variable bounds, read once when the optimization starts
+    bounds: Option<Array2<f64>>,
+
     /// Unique ID for this problem instance (used for constraint management)
     ///
     /// :return: Unique problem ID (integer)
@@ -521,6 +531,7 @@ impl Clone for PyProblem {
             gradient: self.gradient.as_ref().map(|g| g.clone_ref(py)),
             hessian: self.hessian.as_ref().map(|h| h.clone_ref(py)),
             constraints: self.constraints.as_ref().map(|c| c.clone_ref(py)),
+            bounds: self.bounds.clone(),
             problem_id: self.problem_id,
         })
     }
@@ -543,12 +554,30 @@ impl PyProblem {
             gradient,
             hessian,
             constraints,
+            bounds: None,
             problem_id: get_next_problem_id(),
         }
     }
 }
 
 impl PyProblem {
+    /// Read the variable bounds from the Python function
+    fn read_bounds(&self, py: Python) -> PyResult<Array2<f64>> {
+        let bounds: Vec<Vec<f64>> =
+            self.variable_bounds.call0(py).and_then(|bounds| bounds.extract(py)).map_err(|e| {
+                value_error(py, "Failed to read the variable bounds".to_string(), e)
+            })?;
+
+        if bounds.is_empty() || bounds.iter().any(|row| row.len() != 2) {
+            return Err(PyValueError::new_err(
+                "Variable bounds must be a 2D array of shape (n_vars, 2)",
+            ));
+        }
+
+        Array2::from_shape_vec((bounds.len(), 2), bounds.into_iter().flatten().collect())
+            .map_err(|e| PyValueError::new_err(e.to_string()))
+    }
+
     /// Evaluate Python constraint functions at a given point
     pub fn evaluate_constraints(&self, x: &[f64]) -> Vec<f64> {
         if let Some(constraints_fn) = &self.constraints {
@@ -594,25 +623,9 @@ impl Problem for PyProblem {
     }
 
     fn variable_bounds(&self) -> Array2<f64> {
-        Python::attach(|py| {
-            let result = self
-                .variable_bounds
-                .call0(py)
-                .map_err(|e| EvaluationError::InvalidInput { reason: e.to_string() })
-                .and_then(|res: Py<PyAny>| {
-                    res.extract::<Vec<Vec<f64>>>(py)
-                        .map_err(|e| EvaluationError::InvalidInput { reason: e.to_string() })
-                });
-
-            match result {
-                Ok(bounds) => {
-                    let rows = bounds.len();
-                    let cols = if rows > 0 { bounds[0].len() } else { 0 };
-                    Array2::from_shape_vec((rows, cols), bounds.into_iter().flatten().collect())
-                        .unwrap()
-                }
-                Err(_) => panic!("Variable bounds must be a 2D array of floats"),
-            }
+        self.bounds.clone().unwrap_or_else(|| {
+            Python::attach(|py| self.read_bounds(py))
+                .unwrap_or_else(|e| panic!("Variable bounds must be a 2D array of floats: {e}"))
         })
     }
 
@@ -631,6 +644,16 @@ impl Problem for PyProblem {
                     .extract(py)
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
+                if grad_vec.len() != x.len() {
+                    return Err(EvaluationError::InvalidInput {
+                        reason: format!(
+                            "Gradient has {} elements, expected {}",
+                            grad_vec.len(),
+                            x.len()
+                        ),
+                    });
+                }
+
                 Ok(Array1::from(grad_vec))
             })
         } else {
@@ -653,7 +676,13 @@ impl Problem for PyProblem {
                     .extract(py)
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
-                let size = hess_vec.len();
+                let size = x.len();
+                if hess_vec.len() != size || hess_vec.iter().any(|row| row.len() != size) {
+                    return Err(EvaluationError::InvalidInput {
+                        reason: format!("Hessian must be a {size} by {size} matrix"),
+                    });
+                }
+
                 let flat_hess: Vec<f64> = hess_vec.into_iter().flatten().collect();
 
                 Array2::from_shape_vec((size, size), flat_hess).map_err(|_| {
@@ -792,7 +821,7 @@ impl Problem for PyProblem {
     with_points = None,
 ))]
 fn optimize(
-    problem: PyProblem,
+    mut problem: PyProblem,
     params: PyOQNLPParams,
     observer: Option<&PyObserver>,
     local_solver: Option<&str>,
@@ -889,6 +918,8 @@ fn optimize(
             }
         };
 
+        problem.bounds = Some(problem.read_bounds(py)?);
+
         let oqnlp_params: OQNLPParams = OQNLPParams {
             iterations: params.iterations,
             population_size: params.population_size,
@@ -907,6 +938,11 @@ fn optimize(
         if let Some(points) = with_points {
             let rows = points.len();
             let cols = if rows > 0 { points[0].len() } else { 0 };
+            if points.iter().any(|point| point.len() != cols) {
+                return Err(PyValueError::new_err(
+                    "Invalid points array shape: all points must have the same length",
+                ));
+            }
             let flat_points: Vec<f64> = points.into_iter().flatten().collect();
             let points_array = Array2::from_shape_vec((rows, cols), flat_points)
                 .map_err(|e| PyValueError::new_err(format!("Invalid points array shape: {}", e)))?;
-- 
2.43.0


From 41040713feefd7ec408ce1b42a48c30df945ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 46/56] fix: the constraints of a Python problem are its own,
 on every thread, and their errors are raised

---
 python/src/lib.rs | 217 ++++++++++++++++++++++++----------------------
 1 file changed, 111 insertions(+), 106 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 8311b67..ba0eb13 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -13,100 +13,115 @@ use ndarray::{Array1, Array2};
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use seq_macro::seq;
-use std::cell::Cell;
-use std::collections::HashMap;
-use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{Arc, Mutex};
-
-// Global constraint registry for COBYLA constraints
-type ConstraintRegistry = Arc<Mutex<HashMap<usize, Vec<Py<pyo3::PyAny>>>>>;
-static CONSTRAINT_REGISTRY: std::sync::OnceLock<ConstraintRegistry> = std::sync::OnceLock::new();
-static PROBLEM_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 // Global mutex to serialize Python calls from parallel threads
 static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();
 
-// Thread-local storage for current problem ID and constraint index during evaluation
-thread_local! {
-    static CURRENT_PROBLEM_ID: Cell<usize> = const { Cell::new(0) };
-    static CURRENT_CONSTRAINT_INDEX: Cell<usize> = const { Cell::new(0) };
-}
-
 fn get_python_call_mutex() -> &'static Mutex<()> {
     PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
 }
 
-fn get_constraint_registry() -> &'static ConstraintRegistry {
-    CONSTRAINT_REGISTRY.get_or_init(|| Arc::new(Mutex::new(HashMap::new())))
+/// A Python constraint function of a running optimization and the place for its first error
+#[derive(Debug)]
+struct ConstraintSlot {
+    function: Py<pyo3::PyAny>,
+    error: Arc<Mutex<Option<PyErr>>>,
 }
 
-fn get_next_problem_id() -> usize {
-    PROBLEM_ID_COUNTER.fetch_add(1, Ordering::SeqCst)
-}
+// The core takes constraints as plain function pointers, which cannot tell which problem they
+// belong to, and may call them from any thread. Every constraint of a running optimization
+// therefore occupies a slot with a function pointer of its own.
+//
+// Python code never runs while the table is locked.
+static CONSTRAINT_SLOTS: Mutex<Vec<Option<ConstraintSlot>>> = Mutex::new(Vec::new());
 
-fn set_current_problem_id(id: usize) {
-    CURRENT_PROBLEM_ID.with(|current| current.set(id));
+fn lock_constraint_slots() -> MutexGuard<'static, Vec<Option<ConstraintSlot>>> {
+    CONSTRAINT_SLOTS.lock().unwrap_or_else(PoisonError::into_inner)
 }
 
-fn get_current_problem_id() -> usize {
-    CURRENT_PROBLEM_ID.with(|current| current.get())
+/// The slots of a problem's constraints, given back when the last copy of the problem is gone
+#[derive(Debug)]
+struct ConstraintSlots {
+    slots: Vec<usize>,
+    error: Arc<Mutex<Option<PyErr>>>,
 }
 
-// Helper function to evaluate all constraints for a given problem ID
-fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
-    let registry = get_constraint_registry();
-    let registry_lock = registry.lock().expect("Constraint registry mutex poisoned");
+impl ConstraintSlots {
+    fn occupy(functions: Vec<Py<pyo3::PyAny>>) -> PyResult<Self> {
+        let error = Arc::new(Mutex::new(None));
+        let mut table = lock_constraint_slots();
+        table.resize_with(MAX_CONSTRAINTS, || None);
+        let free: Vec<usize> =
+            (0..table.len()).filter(|&i| table[i].is_none()).take(functions.len()).collect();
+        if free.len() < functions.len() {
+            return Err(PyValueError::new_err(format!(
+                "Too many constraints! Maximum supported: {}, requested: {}, free: {}",
+                MAX_CONSTRAINTS,
+                functions.len(),
+                free.len()
+            )));
+        }
+        for (&slot, function) in free.iter().zip(functions) {
+            table[slot] = Some(ConstraintSlot { function, error: Arc::clone(&error) });
+        }
+        Ok(ConstraintSlots { slots: free, error })
+    }
 
-    if let Some(constraints) = registry_lock.get(&problem_id) {
-        Python::attach(|py| {
-            constraints
-                .iter()
-                .map(|constraint| {
-                    let args = (x.to_vec(),);
-                    constraint
-                        .call1(py, args)
-                        .expect("Failed to call constraint function")
-                        .extract::<f64>(py)
-                        .expect("Constraint function must return a float")
-                })
-                .collect()
-        })
-    } else {
-        Vec::new()
+    /// The first error of a constraint function, if there was one
+    fn take_error(&self) -> Option<PyErr> {
+        self.error.lock().unwrap_or_else(PoisonError::into_inner).take()
     }
 }
 
+impl Drop for ConstraintSlots {
+    fn drop(&mut self) {
+        let mut table = lock_constraint_slots();
+        let released: Vec<_> = self.slots.iter().map(|&slot| table[slot].take()).collect();
+        drop(table);
+        drop(released);
+    }
+}
+
+// Evaluate the constraint function of a slot. A failing function yields NaN, which satisfies no
+// constraint, and its error is raised at the end of the optimization.
+fn evaluate_constraint(slot: usize, x: &[f64]) -> f64 {
+    Python::attach(|py| {
+        let Some((function, error)) = lock_constraint_slots()
+            .get(slot)
+            .and_then(Option::as_ref)
+            .map(|slot| (slot.function.clone_ref(py), Arc::clone(&slot.error)))
+        else {
+            return f64::NAN;
+        };
+
+        if error.lock().unwrap_or_else(PoisonError::into_inner).is_some() {
+            return f64::NAN;
+        }
+
+        function.call1(py, (x.to_vec(),)).and_then(|value| value.extract::<f64>(py)).unwrap_or_else(
+            |e| {
+                error.lock().unwrap_or_else(PoisonError::into_inner).get_or_insert(e);
+                f64::NAN
+            },
+        )
+    })
+}
+
 // Generate constraint functions dynamically using macro (up to 1000 constraints)
 const MAX_CONSTRAINTS: usize = 1000;
 
 seq!(N in 0..1000 {
-    #[allow(clippy::get_first)]
     fn constraint_fn_~N(x: &[f64], _user_data: &mut ()) -> f64 {
-        let problem_id = get_current_problem_id();
-        let constraints = evaluate_constraints_for_id(problem_id, x);
-        constraints.get(N).copied().unwrap_or(0.0)
+        evaluate_constraint(N, x)
     }
 });
 
-// Helper to get constraint function pointers dynamically
-fn get_constraint_functions(num_constraints: usize) -> Vec<fn(&[f64], &mut ()) -> f64> {
-    if num_constraints > MAX_CONSTRAINTS {
-        panic!(
-            "Too many constraints! Maximum supported: {}, requested: {}",
-            MAX_CONSTRAINTS, num_constraints
-        );
-    }
-
-    let mut functions = Vec::new();
-
-    seq!(N in 0..1000 {
-        if N < num_constraints {
-            functions.push(constraint_fn_~N as fn(&[f64], &mut ()) -> f64);
-        }
-    });
-
-    functions
-}
+seq!(N in 0..1000 {
+    const CONSTRAINT_FUNCTIONS: [fn(&[f64], &mut ()) -> f64; MAX_CONSTRAINTS] = [
+        #(constraint_fn_~N,)*
+    ];
+});
 
 // A ValueError about a Python function of a problem, caused by the given exception
 fn value_error(py: Python, message: String, cause: PyErr) -> PyErr {
@@ -516,11 +531,8 @@ pub struct PyProblem {
     /// Variable bounds, read once when the optimization starts
     bounds: Option<Array2<f64>>,
 
-    /// Unique ID for this problem instance (used for constraint management)
-    ///
-    /// :return: Unique problem ID (integer)
-    /// :rtype: int
-    problem_id: usize,
+    /// Slots of the constraint functions while the problem is being optimized
+    constraint_slots: Option<Arc<ConstraintSlots>>,
 }
 
 impl Clone for PyProblem {
@@ -532,7 +544,7 @@ impl Clone for PyProblem {
             hessian: self.hessian.as_ref().map(|h| h.clone_ref(py)),
             constraints: self.constraints.as_ref().map(|c| c.clone_ref(py)),
             bounds: self.bounds.clone(),
-            problem_id: self.problem_id,
+            constraint_slots: self.constraint_slots.clone(),
         })
     }
 }
@@ -555,7 +567,7 @@ impl PyProblem {
             hessian,
             constraints,
             bounds: None,
-            problem_id: get_next_problem_id(),
+            constraint_slots: None,
         }
     }
 }
@@ -578,6 +590,21 @@ impl PyProblem {
             .map_err(|e| PyValueError::new_err(e.to_string()))
     }
 
+    /// The individual constraint functions of the Python list, tuple or single function
+    fn constraint_functions(&self, py: Python) -> Vec<Py<pyo3::PyAny>> {
+        let Some(constraints) = &self.constraints else {
+            return Vec::new();
+        };
+        if let Ok(list) = constraints.cast_bound::<pyo3::types::PyList>(py) {
+            list.iter().map(|item| item.unbind()).collect()
+        } else if let Ok(tuple) = constraints.cast_bound::<pyo3::types::PyTuple>(py) {
+            tuple.iter().map(|item| item.unbind()).collect()
+        } else {
+            // Single constraint function
+            vec![constraints.clone_ref(py)]
+        }
+    }
+
     /// Evaluate Python constraint functions at a given point
     pub fn evaluate_constraints(&self, x: &[f64]) -> Vec<f64> {
         if let Some(constraints_fn) = &self.constraints {
@@ -606,7 +633,7 @@ impl PyProblem {
 impl Problem for PyProblem {
     fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
         // Serialize Python calls from parallel threads to avoid GIL deadlocks
-        let _guard = get_python_call_mutex().lock().unwrap();
+        let _guard = get_python_call_mutex().lock().unwrap_or_else(PoisonError::into_inner);
         Python::attach(|py| {
             let x_py = x
                 .to_vec()
@@ -695,37 +722,9 @@ impl Problem for PyProblem {
     }
 
     fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
-        if let Some(constraint_funcs) = &self.constraints {
-            // Register Python constraints in the global registry
-            let registry = get_constraint_registry();
-            let mut registry_lock = registry.lock().unwrap();
-
-            Python::attach(|py| {
-                // Extract individual constraint functions from the Python list/tuple
-                let constraint_list: Vec<Py<pyo3::PyAny>> = if let Ok(list) =
-                    constraint_funcs.cast_bound::<pyo3::types::PyList>(py)
-                {
-                    list.iter().map(|item| item.unbind()).collect()
-                } else if let Ok(tuple) = constraint_funcs.cast_bound::<pyo3::types::PyTuple>(py) {
-                    tuple.iter().map(|item| item.unbind()).collect()
-                } else {
-                    // Single constraint function
-                    vec![constraint_funcs.clone_ref(py)]
-                };
-
-                let num_constraints = constraint_list.len();
-                registry_lock.insert(self.problem_id, constraint_list);
-                drop(registry_lock); // Release the lock
-
-                // Set the current problem ID for constraint evaluation
-                set_current_problem_id(self.problem_id);
-
-                // Return appropriate number of function pointers
-                get_constraint_functions(num_constraints)
-            })
-        } else {
-            Vec::new()
-        }
+        self.constraint_slots.as_ref().map_or_else(Vec::new, |constraints| {
+            constraints.slots.iter().map(|&slot| CONSTRAINT_FUNCTIONS[slot]).collect()
+        })
     }
 }
 
@@ -919,6 +918,8 @@ fn optimize(
         };
 
         problem.bounds = Some(problem.read_bounds(py)?);
+        let constraint_slots = Arc::new(ConstraintSlots::occupy(problem.constraint_functions(py))?);
+        problem.constraint_slots = Some(Arc::clone(&constraint_slots));
 
         let oqnlp_params: OQNLPParams = OQNLPParams {
             iterations: params.iterations,
@@ -999,6 +1000,10 @@ fn optimize(
             if should_detach_gil { py.detach(|| optimizer.run()) } else { optimizer.run() }
         };
 
+        if let Some(e) = constraint_slots.take_error() {
+            return Err(value_error(py, "Constraint function failed".to_string(), e));
+        }
+
         let binding = solution_set.map_err(|e| PyValueError::new_err(e.to_string()))?;
 
         // Update the observer in place if provided
-- 
2.43.0


From a665bc07d31c5ec4211d282df00cfad2ea739c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 47/56] fix: the Python builder functions have their documented
 default arguments

---
 python/src/builders.rs | 123 ++++++++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 44 deletions(-)

diff --git a/python/src/builders.rs b/python/src/builders.rs
index f5eeaf3..46d406e 100644
--- a/python/src/builders.rs
+++ b/python/src/builders.rs
@@ -110,6 +110,15 @@ impl PyHagerZhang {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    delta = 0.1,
+    sigma = 0.9,
+    epsilon = 1e-6,
+    theta = 0.5,
+    gamma = 0.66,
+    eta = 0.01,
+    bounds = vec![f64::EPSILON.sqrt(), f64::INFINITY],
+))]
 #[pyo3(
     text_signature = "(delta: f64, sigma: f64, epsilon: f64, theta: f64, gamma: f64, eta: f64, bounds: List[float])"
 )]
@@ -163,6 +172,12 @@ impl PyMoreThuente {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    c1 = 1e-4,
+    c2 = 0.9,
+    width_tolerance = 1e-10,
+    bounds = vec![f64::EPSILON.sqrt(), f64::INFINITY],
+))]
 #[pyo3(text_signature = "(c1: f64, c2: f64, width_tolerance: f64, bounds: List[float])")]
 fn morethuente(c1: f64, c2: f64, width_tolerance: f64, bounds: Vec<f64>) -> PyMoreThuente {
     PyMoreThuente { c1, c2, width_tolerance, bounds }
@@ -215,6 +230,33 @@ impl PyLineSearchParams {
     }
 }
 
+// The line search of a solver configuration, More-Thuente with default parameters if not given
+fn line_search_or_default(
+    line_search_params: Option<Py<pyo3::PyAny>>,
+    py: Python,
+) -> PyResult<PyLineSearchParams> {
+    let Some(line_search_params) = line_search_params else {
+        return Ok(PyLineSearchParams {
+            method: PyLineSearchMethod::MoreThuente(PyMoreThuente {
+                c1: 1e-4,
+                c2: 0.9,
+                width_tolerance: 1e-10,
+                bounds: vec![f64::EPSILON.sqrt(), f64::INFINITY],
+            }),
+        });
+    };
+
+    if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
+        Ok(params)
+    } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
+        Ok(PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) })
+    } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
+        Ok(PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) })
+    } else {
+        Err(PyTypeError::new_err("Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang"))
+    }
+}
+
 #[pyclass]
 #[derive(Debug, Clone)]
 /// L-BFGS (Limited-memory Broyden-Fletcher-Goldfarb-Shanno) solver configuration.
@@ -390,11 +432,11 @@ impl PyLBFGS {
 
 #[pyfunction]
 #[pyo3(signature = (
-    max_iter,
-    tolerance_grad,
-    tolerance_cost,
-    history_size,
-    line_search_params,
+    max_iter = 300,
+    tolerance_grad = f64::EPSILON.sqrt(),
+    tolerance_cost = f64::EPSILON,
+    history_size = 10,
+    line_search_params = None,
     l1_coefficient = None,
 ))]
 #[pyo3(
@@ -405,22 +447,11 @@ fn lbfgs(
     tolerance_grad: f64,
     tolerance_cost: f64,
     history_size: usize,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     l1_coefficient: Option<f64>,
     py: Python,
 ) -> PyResult<PyLBFGS> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = line_search_or_default(line_search_params, py)?;
 
     Ok(PyLBFGS {
         max_iter,
@@ -514,6 +545,15 @@ impl PyNelderMead {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    simplex_delta = 0.1,
+    sd_tolerance = f64::EPSILON,
+    max_iter = 300,
+    alpha = 1.0,
+    gamma = 2.0,
+    rho = 0.5,
+    sigma = 0.5,
+))]
 #[pyo3(
     text_signature = "(simplex_delta: f64, sd_tolerance: f64, max_iter: u64, alpha: f64, gamma: f64, rho: f64, sigma: f64)"
 )]
@@ -589,24 +629,17 @@ impl PySteepestDescent {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    max_iter = 300,
+    line_search_params = None,
+))]
 #[pyo3(text_signature = "(max_iter: u64, line_search_params: Union[PyMoreThuente, PyHagerZhang])")]
 fn steepestdescent(
     max_iter: u64,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     py: Python,
 ) -> PyResult<PySteepestDescent> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = line_search_or_default(line_search_params, py)?;
 
     Ok(PySteepestDescent { max_iter, line_search_params })
 }
@@ -693,6 +726,12 @@ impl PyNewtonCG {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    max_iter = 300,
+    curvature_threshold = 0.0,
+    tolerance = f64::EPSILON,
+    line_search_params = None,
+))]
 #[pyo3(
     text_signature = "(max_iter: u64, curvature_threshold: f64, tolerance: f64, line_search_params: Union[PyMoreThuente, PyHagerZhang])"
 )]
@@ -700,21 +739,10 @@ fn newtoncg(
     max_iter: u64,
     curvature_threshold: f64,
     tolerance: f64,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     py: Python,
 ) -> PyResult<PyNewtonCG> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = line_search_or_default(line_search_params, py)?;
 
     Ok(PyNewtonCG { max_iter, curvature_threshold, tolerance, line_search_params })
 }
@@ -816,6 +844,13 @@ impl PyTrustRegion {
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    trust_region_radius_method = PyTrustRegionRadiusMethod::Cauchy,
+    max_iter = 300,
+    radius = 1.0,
+    max_radius = 100.0,
+    eta = 0.125,
+))]
 #[pyo3(
     text_signature = "(trust_region_radius_method: PyTrustRegionRadiusMethod, max_iter: u64, radius: f64, max_radius: f64, eta: f64)"
 )]
-- 
2.43.0


From 3041a086a8e604549a1d6deaf755ac444119cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 48/56] fix: solutions returned to Python are sorted best
 first, as documented

---
 python/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index ba0eb13..0816708 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -269,6 +269,12 @@ impl PyLocalSolution {
     }
 }
 
+// Order solutions from best to worst; NaN objectives, whatever their sign, come after all numbers
+fn compare_solutions(a: &PyLocalSolution, b: &PyLocalSolution) -> std::cmp::Ordering {
+    let (a, b) = (a.objective, b.objective);
+    a.is_nan().cmp(&b.is_nan()).then_with(|| a.total_cmp(&b))
+}
+
 #[pyclass]
 #[derive(Debug, Clone)]
 /// A collection of local solutions found by the optimization algorithm.
@@ -332,14 +338,7 @@ impl PySolutionSet {
     /// :returns: The solution with the lowest objective function value, or None if the set is empty
     /// :rtype: PyLocalSolution or None
     fn best_solution(&self) -> Option<PyLocalSolution> {
-        // NaN objectives, whatever their sign, come after all numbers
-        self.solutions
-            .iter()
-            .min_by(|a, b| {
-                let (a, b) = (a.objective, b.objective);
-                a.is_nan().cmp(&b.is_nan()).then_with(|| a.total_cmp(&b))
-            })
-            .cloned()
+        self.solutions.iter().min_by(|a, b| compare_solutions(a, b)).cloned()
     }
 
     /// Returns the solution at the given index.
@@ -1023,10 +1022,11 @@ fn optimize(
                 }
             }
         }
-        let py_solutions: Vec<PyLocalSolution> = binding
+        let mut py_solutions: Vec<PyLocalSolution> = binding
             .solutions()
             .map(|sol| PyLocalSolution { point: sol.point.to_vec(), objective: sol.objective })
             .collect();
+        py_solutions.sort_by(compare_solutions);
 
         Ok(PySolutionSet::new(py_solutions))
     })
-- 
2.43.0


From 250c4d77230f87bf587d060ab1431f29a415452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 49/56] fix: the threshold printed as adjusted is the one the
 run goes on with

---
 src/oqnlp.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 1666932..6fd349e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1848,16 +1848,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 *unchanged_cycles += 1;
 
                 if *unchanged_cycles >= self.params.wait_cycle {
+                    let previous_threshold = self.merit_filter.threshold;
+                    self.adjust_threshold(previous_threshold);
+
                     if self.verbose {
                         println!(
                             "Stage 2, iteration {}: Adjusting threshold from {:.8} to {:.8}",
-                            local_iter,
-                            self.merit_filter.threshold,
-                            self.merit_filter.threshold + 0.1 * self.merit_filter.threshold.abs()
+                            local_iter, previous_threshold, self.merit_filter.threshold
                         );
                     }
 
-                    self.adjust_threshold(self.merit_filter.threshold);
                     *unchanged_cycles = 0;
                 }
             }
@@ -1949,15 +1949,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         for (local_iter, _trial, _obj) in quick_candidates {
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
+                let previous_threshold = self.merit_filter.threshold;
+                self.adjust_threshold(previous_threshold);
                 if self.verbose {
                     println!(
                         "Stage 2, iteration {}: Adjusting threshold from {:.8} to {:.8}",
-                        local_iter,
-                        self.merit_filter.threshold,
-                        self.merit_filter.threshold + 0.1 * self.merit_filter.threshold.abs()
+                        local_iter, previous_threshold, self.merit_filter.threshold
                     );
                 }
-                self.adjust_threshold(self.merit_filter.threshold);
                 *unchanged_cycles = 0;
             }
 
-- 
2.43.0


From 0fff920f372f348e09befbbc897e793e186b7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 50/56] fix: the coordinates logged after the best objective
 are those of the best point

---
 src/observers/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index e2bdcee..8c7bbc4 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -725,7 +725,7 @@ impl Observer {
                     // Extract all stage2 data first to avoid borrowing conflicts
                     let current_iter = stage2.current_iteration();
                     let best_obj = stage2.best_objective();
-                    let last_added_coords = stage2.last_added_point().map(format_coords);
+                    let best_coords = stage2.best_point().map(format_coords);
                     let sol_size = stage2.solution_set_size();
                     let threshold = stage2.threshold_value();
                     let local_calls = stage2.local_solver_calls();
@@ -749,7 +749,7 @@ impl Observer {
                     };
 
                     if should_print {
-                        let message = if let Some(coords) = last_added_coords {
+                        let message = if let Some(coords) = best_coords {
                             format!(
                                 "[Stage 2] Iter {} | Best: {:.6} at {} | Solutions: {} | Threshold: {:.6} | Local Calls: {} | Fn Evals: {}",
                                 current_iter, best_obj, coords, sol_size, threshold, local_calls, fn_evals
@@ -869,7 +869,7 @@ impl Observer {
         self.with_callback(|obs| {
             if let Some(stage2) = obs.stage2() {
                 if stage2.current_iteration() > 0 {
-                    if let Some(point) = stage2.last_added_point() {
+                    if let Some(point) = stage2.best_point() {
                         eprintln!(
                             "[Stage 2] Iter {} | Best: {:.6} at {} | Solutions: {} | Threshold: {:.6} | Local Calls: {} | Fn Evals: {}",
                             stage2.current_iteration(),
-- 
2.43.0


From d3357b4e391d4f7c69bb512a1e37d8b1c9ca9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 51/56] fix: the first solution added to the set is reported as
 the last added one

---
 src/oqnlp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 6fd349e..981ac46 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1170,6 +1170,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
             self.merit_filter.update_threshold(solution.objective);
+
+            // Update observer with the newly added solution
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
+                }
+            }
+
             self.distance_filter.add_solution(solution);
 
             return Ok(true);
-- 
2.43.0


From 7c4104ff79b27889a73359c52a4b225d8046540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 52/56] fix: Nelder-Mead does not panic when the objective is
 not a number

---
 src/local_solver/runner.rs | 43 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 2f141fc..acd3de9 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -422,7 +422,7 @@ impl<P: Problem> LocalSolver<P> {
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
             Arc, Mutex,
-            atomic::{AtomicU64, AtomicUsize, Ordering},
+            atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
@@ -432,6 +432,9 @@ impl<P: Problem> LocalSolver<P> {
             // the solver would panic on an error at this point
             initial_evaluations: AtomicUsize,
             initial_failure: Arc<Mutex<Option<String>>>,
+            // An objective that is not a number was seen: the solver sorts its simplex, and would
+            // panic on a value that has no place in the order
+            not_a_number: Arc<AtomicBool>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -460,6 +463,10 @@ impl<P: Problem> LocalSolver<P> {
                         *failure = Some(e.to_string());
                         Ok(f64::INFINITY)
                     }
+                    Ok(value) if value.is_nan() => {
+                        self.not_a_number.store(true, Ordering::Relaxed);
+                        Ok(f64::INFINITY)
+                    }
                     result => result.map_err(|e| Error::msg(e.to_string())),
                 }
             }
@@ -467,11 +474,13 @@ impl<P: Problem> LocalSolver<P> {
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
         let initial_failure = Arc::new(Mutex::new(None));
+        let not_a_number = Arc::new(AtomicBool::new(false));
         let cost = ProblemCost {
             problem: &self.problem,
             eval_count: eval_count.clone(),
             initial_evaluations: AtomicUsize::new(initial_point.len() + 1),
             initial_failure: initial_failure.clone(),
+            not_a_number: not_a_number.clone(),
         };
 
         if let LocalSolverConfig::NelderMead {
@@ -529,18 +538,28 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
-            let solution = LocalSolution {
-                point: res
-                    .state()
-                    .best_param
-                    .as_ref()
-                    .ok_or(LocalSolverError::NoSolution {
+            let point = res
+                .state()
+                .best_param
+                .as_ref()
+                .ok_or(LocalSolverError::NoSolution {
+                    solver_type: "unknown".to_string(),
+                    iterations: 0,
+                })?
+                .clone();
+            let mut objective = res.state().best_cost;
+            if objective == f64::INFINITY && not_a_number.load(Ordering::Relaxed) {
+                // What the user's objective is here
+                if let Some(counter) = &eval_count {
+                    counter.fetch_add(1, Ordering::Relaxed);
+                }
+                objective =
+                    self.problem.objective(&point).map_err(|e| LocalSolverError::RunFailed {
                         solver_type: "unknown".to_string(),
-                        iterations: 0,
-                    })?
-                    .clone(),
-                objective: res.state().best_cost,
-            };
+                        reason: e.to_string(),
+                    })?;
+            }
+            let solution = LocalSolution { point, objective };
             let evaluations = eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
             Ok((solution, evaluations))
         } else {
-- 
2.43.0


From ef443a71116dd171302b326d20199490f348aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 53/56] fix: a local search that comes across no number reports
 the objective at its point

---
 src/local_solver/runner.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index acd3de9..08642f0 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -171,7 +171,7 @@ impl<P: Problem> LocalSolver<P> {
         initial_point: Array1<f64>,
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
-        match self.local_solver_type {
+        let (mut solution, mut evaluations) = match self.local_solver_type {
             #[cfg(feature = "argmin")]
             LocalSolverType::LBFGS => {
                 self.solve_lbfgs(initial_point, &self.local_solver_config, track_evaluations)
@@ -197,7 +197,19 @@ impl<P: Problem> LocalSolver<P> {
             LocalSolverType::COBYLA => {
                 self.solve_cobyla(initial_point, &self.local_solver_config, track_evaluations)
             }
+        }?;
+
+        if solution.objective == f64::INFINITY {
+            // The best cost of a search that came across no number
+            solution.objective = self.problem.objective(&solution.point).map_err(|e| {
+                LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason: e.to_string(),
+                }
+            })?;
+            evaluations += u64::from(track_evaluations);
         }
+        Ok((solution, evaluations))
     }
 
     /// Solve the optimization problem using the L-BFGS local solver
@@ -422,7 +434,7 @@ impl<P: Problem> LocalSolver<P> {
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
             Arc, Mutex,
-            atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
+            atomic::{AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
@@ -432,9 +444,6 @@ impl<P: Problem> LocalSolver<P> {
             // the solver would panic on an error at this point
             initial_evaluations: AtomicUsize,
             initial_failure: Arc<Mutex<Option<String>>>,
-            // An objective that is not a number was seen: the solver sorts its simplex, and would
-            // panic on a value that has no place in the order
-            not_a_number: Arc<AtomicBool>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -464,7 +473,8 @@ impl<P: Problem> LocalSolver<P> {
                         Ok(f64::INFINITY)
                     }
                     Ok(value) if value.is_nan() => {
-                        self.not_a_number.store(true, Ordering::Relaxed);
+                        // The solver sorts its simplex, and would panic on a value that has no
+                        // place in the order
                         Ok(f64::INFINITY)
                     }
                     result => result.map_err(|e| Error::msg(e.to_string())),
@@ -474,13 +484,11 @@ impl<P: Problem> LocalSolver<P> {
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
         let initial_failure = Arc::new(Mutex::new(None));
-        let not_a_number = Arc::new(AtomicBool::new(false));
         let cost = ProblemCost {
             problem: &self.problem,
             eval_count: eval_count.clone(),
             initial_evaluations: AtomicUsize::new(initial_point.len() + 1),
             initial_failure: initial_failure.clone(),
-            not_a_number: not_a_number.clone(),
         };
 
         if let LocalSolverConfig::NelderMead {
@@ -547,18 +555,7 @@ impl<P: Problem> LocalSolver<P> {
                     iterations: 0,
                 })?
                 .clone();
-            let mut objective = res.state().best_cost;
-            if objective == f64::INFINITY && not_a_number.load(Ordering::Relaxed) {
-                // What the user's objective is here
-                if let Some(counter) = &eval_count {
-                    counter.fetch_add(1, Ordering::Relaxed);
-                }
-                objective =
-                    self.problem.objective(&point).map_err(|e| LocalSolverError::RunFailed {
-                        solver_type: "unknown".to_string(),
-                        reason: e.to_string(),
-                    })?;
-            }
+            let objective = res.state().best_cost;
             let solution = LocalSolution { point, objective };
             let evaluations = eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
             Ok((solution, evaluations))
-- 
2.43.0


From 8e455efb0b27ae97b78dd241f021da585869070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 54/56] fix: the reference set never exceeds the population
 size, however many custom points there are

---
 src/scatter_search.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 5340896..2a41d39 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -295,6 +295,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         self.update_reference_set(&trial_points);
 
+        // With more custom points than the population has room for, only the best ones stay
+        // (without accepted trial points the reference set is still sorted best first)
+        self.reference_set.truncate(self.params.population_size);
+        self.reference_set_objectives.truncate(self.params.population_size);
+
         // Update observer with intensification metrics
         if let Some(ref mut obs) = self.observer {
             if obs.should_observe_stage1() {
-- 
2.43.0


From 570f56446cc42e6b6a5274ea247e71cd1ce1cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 55/56] fix: a checkpoint file of another name ending in a
 number is not taken for an archived one

---
 src/checkpoint.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 74e21d8..bd87703 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -327,6 +327,10 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
+                        // Otherwise it belongs to another name, like `run_1.bin` next to `run`
+                        if format!("{iteration:06}") != iteration_str {
+                            continue;
+                        }
                         if latest.as_ref().is_none_or(|(current, _)| iteration > *current) {
                             latest = Some((iteration, path));
                         }
@@ -368,6 +372,10 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
+                        // Otherwise it belongs to another name, like `run_1.bin` next to `run`
+                        if format!("{iteration:06}") != iteration_str {
+                            continue;
+                        }
                         checkpoints.push((iteration, path));
                     }
                 }
-- 
2.43.0


From 6f709462a9551481015c6faa65e06a9c8fa53842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 56/56] fix: the midpoint seed stays inside bounds whose sum
 overflows

---
 src/scatter_search.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 2a41d39..3139216 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -332,19 +332,19 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Get constraint functions for feasibility checking
         let constraints = self.problem.constraints();
 
+        // Halved first, as the sum of the bounds may overflow
+        let midpoint = &self.bounds.lower / 2.0 + &self.bounds.upper / 2.0;
+
         // Add seed points (bounds and midpoint)
         if constraints.is_empty() {
             // No constraints - add all seed points directly
             ref_set.push(self.bounds.lower.to_owned());
             ref_set.push(self.bounds.upper.to_owned());
-            ref_set.push((&self.bounds.lower + &self.bounds.upper) / 2.0);
+            ref_set.push(midpoint);
         } else {
             // With constraints - only add seed points that satisfy them
-            let seed_points = vec![
-                self.bounds.lower.to_owned(),
-                self.bounds.upper.to_owned(),
-                (&self.bounds.lower + &self.bounds.upper) / 2.0,
-            ];
+            let seed_points =
+                vec![self.bounds.lower.to_owned(), self.bounds.upper.to_owned(), midpoint];
 
             for point in seed_points {
                 if is_feasible(&point, &constraints) {
-- 
2.43.0

