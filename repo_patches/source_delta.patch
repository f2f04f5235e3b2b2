From e003294b0cd1dec542c687947380ab609960102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 1/7] fix: do not overwrite a better result when merging the
 results of a search task

A task's best_memory might have been lowered by other tasks, without a
according result in this task. In that case, the task's worse result for
the same path length replaced the better one in the shared results.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..f64f540 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -150,8 +150,13 @@ fn task(
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
             // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+            if let Some(result) = new_results.remove(&time) {
+                // this_mem might not belong to this task's result, but might have been
+                // taken over from another task, in `update`; so do not overwrite a
+                // better result
+                if results.get(&time).map_or(true, |(mem, _)| result.0 < *mem) {
+                    results.insert(time, result);
+                }
             }
         }
     }
-- 
2.43.0


From 9e9780178fda36ea0291973755cd89d9b6f652f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 2/7] fix: return NotMeasurable also if the instruction is
 longer than the measurable set

The capacity calculation underflowed, which panicked instead of returning the
error.
---
 mbqc_scheduling/src/scheduler/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..412960d 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -201,7 +201,7 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
         let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+            Vec::with_capacity(self.measurable.set().len().saturating_sub(measure_set.len()));
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 9b5f5b259bdfc3779074bc6a4fe82235572ba7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 3/7] fix: num_remaining_nodes has to count the measurable
 nodes too

It only counted the nodes that are not measurable yet, although it is documented
(there and in probabilistic::Accept) as the number of nodes that are left to be
measured.
---
 mbqc_scheduling/src/scheduler/time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 412960d..d7ba334 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -197,6 +192,11 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
         }
     }
 
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     // check whether the measure_set is really measurable and return the new
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
-- 
2.43.0


From 3fe7e576932e17c513bafc5f350676d5f54dd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 4/7] fix: a task bound of zero is not unlimited

The bound was only compared after the first task had already been started, with ==,
so that a bound of zero was never reached.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index f64f540..df7306d 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks < task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -82,9 +86,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From ee5070afa8e61f2384ef5fe5ed42e96fc1cdc348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 5/7] fix: BuiltinHeavyside must not return NaN

For diff == 0 and no remaining nodes the exponent is 0/0; an accept probability has
to be semi-positive. For diff == 0 with remaining nodes it has been 0 anyway.
---
 mbqc_scheduling/src/probabilistic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/probabilistic.rs b/mbqc_scheduling/src/probabilistic.rs
index ba44c85..6a3d1e6 100644
--- a/mbqc_scheduling/src/probabilistic.rs
+++ b/mbqc_scheduling/src/probabilistic.rs
@@ -34,7 +34,7 @@ fn builtin_heavyside(
     num_total_nodes: f64,
 ) -> f64 {
     let diff = minimal_mem - f64::max(cur_mem, last_max_mem);
-    if diff < 0. {
+    if diff <= 0. {
         0.
     } else {
         num_total_nodes.powi(2)
@@ -95,7 +95,7 @@ pub enum AcceptFunc {
     /// # fn builtin_heavyside(_: f64, minimal_mem: f64, last_max_mem: f64, _: f64,
     /// # cur_mem: f64, num_remaining_nodes: f64, num_total_nodes: f64,) -> f64 {
     /// let diff = minimal_mem - f64::max(cur_mem, last_max_mem);
-    /// if diff < 0. {
+    /// if diff <= 0. {
     ///     0.
     /// } else {
     ///     num_total_nodes.powi(2)
-- 
2.43.0


From 31cd005edb9b11237fde5bae98e2f8d0292f189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 6/7] verif hooks: observation points under cfg(mbqc_verif)

---
 mbqc_scheduling/src/lib.rs             |  4 ++++
 mbqc_scheduling/src/search.rs          |  5 ++++
 mbqc_scheduling/src/search/threaded.rs | 12 ++++++++++
 mbqc_scheduling/src/verif_hooks.rs     | 32 ++++++++++++++++++++++++++
 4 files changed, 53 insertions(+)
 create mode 100644 mbqc_scheduling/src/verif_hooks.rs

diff --git a/mbqc_scheduling/src/lib.rs b/mbqc_scheduling/src/lib.rs
index 0e0821e..740a8ef 100644
--- a/mbqc_scheduling/src/lib.rs
+++ b/mbqc_scheduling/src/lib.rs
@@ -10,6 +10,8 @@ scheduling process and [search] implements based on that the search for the opti
 schedule patterns.
 */
 
+#![allow(unexpected_cfgs)] // mbqc_verif, cf. verif_hooks
+
 macro_rules! non_semantic_default {
     () => {
         "Note that semantically, this impl makes not much sense. It is rather useful for \
@@ -22,3 +24,5 @@ pub mod probabilistic;
 pub mod scheduler;
 pub mod search;
 pub mod timer;
+#[cfg(mbqc_verif)]
+pub mod verif_hooks;
diff --git a/mbqc_scheduling/src/search.rs b/mbqc_scheduling/src/search.rs
index b11ac5a..615b114 100644
--- a/mbqc_scheduling/src/search.rs
+++ b/mbqc_scheduling/src/search.rs
@@ -212,6 +212,11 @@ fn backward(
     results: &mut MappedPaths,
 ) {
     if let Some(mem) = leaf {
+        #[cfg(mbqc_verif)]
+        crate::verif_hooks::at(crate::verif_hooks::Point::Found {
+            time: current_path.len(),
+            space: mem,
+        });
         best_memory[current_path.len()] = mem;
         for m in best_memory[current_path.len() + 1..].iter_mut() {
             *m = cmp::min(*m, mem);
diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index df7306d..67e293d 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -113,6 +113,9 @@ fn task(
     timer: &Timer,
     probabilistic: Option<(&Accept, u64)>,
 ) {
+    #[cfg(mbqc_verif)]
+    crate::verif_hooks::at(crate::verif_hooks::Point::TaskStart { index: ntasks });
+
     let _span = tracing::debug_span!("search task", ntasks).entered();
 
     tracing::debug!(
@@ -135,6 +138,9 @@ fn task(
 
     tracing::debug!("DONE: results {:?}; best_memory {:?}", new_results, this_best_mem,);
 
+    #[cfg(mbqc_verif)]
+    crate::verif_hooks::at(crate::verif_hooks::Point::Merge);
+
     if new_results.is_empty() {
         return;
     }
@@ -170,6 +176,12 @@ fn update(
     update_counter: &mut usize,
     timer: &Timer,
 ) -> bool {
+    #[cfg(mbqc_verif)]
+    if crate::verif_hooks::at(crate::verif_hooks::Point::Step {
+        counter: *update_counter,
+    }) {
+        *update_counter = UPDATE_INTERVAL;
+    }
     //
     if *update_counter == UPDATE_INTERVAL {
         best_memory
diff --git a/mbqc_scheduling/src/verif_hooks.rs b/mbqc_scheduling/src/verif_hooks.rs
new file mode 100644
index 0000000..7b79301
--- /dev/null
+++ b/mbqc_scheduling/src/verif_hooks.rs
@@ -0,0 +1,32 @@
+//! Observation points for external runtime monitors. Only compiled with `--cfg mbqc_verif`;
+//! without an installed hook, the points do nothing.
+
+use std::sync::OnceLock;
+
+/// Where the code is.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum Point {
+    /// A multi-threaded search task starts; `index` is -1 for the task that searches
+    /// everything that was not split off.
+    TaskStart { index: i64 },
+    /// A task has done a step and is about to count it towards the next synchronisation.
+    /// Returning true synchronises now.
+    Step { counter: usize },
+    /// A task is about to merge its results.
+    Merge,
+    /// A search is about to note a complete pattern.
+    Found { time: usize, space: usize },
+}
+
+pub type Hook = fn(Point) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Install the hook, once per process.
+pub fn install(hook: Hook) {
+    HOOK.set(hook).expect("a hook is already installed");
+}
+
+pub(crate) fn at(point: Point) -> bool {
+    HOOK.get().is_some_and(|hook| hook(point))
+}
-- 
2.43.0


From a3b432470e5658719367224788dca4b6b45eb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 7/7] fix: join the search threads instead of detaching them
 while they end

Dropping the thread pool detached its threads just when they ended. With more than
about 20 threads (so that their stacks are unmapped), pthread_detach then now and then
crashed (glibc bug 19951: it reads the descriptor of the thread that is already gone),
and all results of the run were lost: about 1 of 8000 runs with 300 threads on a busy
machine.
---
 mbqc_scheduling/src/search/threaded.rs | 45 +++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 67e293d..6eceac6 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -11,11 +11,16 @@
 // (We also lock the results, but I don't think this is a problem, because it is not often
 // updated)
 
-use std::{cmp::Ordering, collections::HashMap, ops::Deref, sync::Mutex};
+use std::{
+    cmp::Ordering,
+    collections::HashMap,
+    ops::Deref,
+    sync::{mpsc, Mutex},
+    thread,
+};
 
 use rand::{distributions::Uniform, Rng, SeedableRng};
 use rand_pcg::Pcg64;
-use scoped_threadpool::Pool;
 
 use super::{MappedPaths, Steps};
 use crate::{
@@ -32,6 +37,38 @@ use crate::{
 // (this is rather a random constant at the moment)
 const UPDATE_INTERVAL: usize = 1000;
 
+struct Scope<'env>(mpsc::Sender<Box<dyn FnOnce() + Send + 'env>>);
+
+impl<'env> Scope<'env> {
+    fn execute(&self, job: impl FnOnce() + Send + 'env) {
+        self.0.send(Box::new(job)).expect("failed to send job");
+    }
+}
+
+// run the jobs, that `f` executes in its scope, on `nthreads` threads; the threads are
+// joined (and not detached while they are ending, which is not safe with all versions
+// of glibc, cf. its bug 19951)
+fn scoped<'env>(nthreads: u16, f: impl FnOnce(Scope<'env>)) {
+    let (sender, receiver) = mpsc::channel::<Box<dyn FnOnce() + Send + 'env>>();
+    let receiver = Mutex::new(receiver);
+    let next_job = || receiver.lock().expect("failed to lock receiver").recv().ok();
+
+    thread::scope(|scope| {
+        let threads = (0..nthreads)
+            .map(|_| {
+                scope.spawn(|| {
+                    while let Some(job) = next_job() {
+                        job()
+                    }
+                })
+            })
+            .collect::<Vec<_>>();
+        f(Scope(sender));
+        let panicked = threads.into_iter().filter_map(|t| t.join().err()).count();
+        assert_eq!(panicked, 0, "search threads panicked");
+    });
+}
+
 pub fn search(
     nthreads: u16,
     num_bits: usize,
@@ -40,8 +77,6 @@ pub fn search(
     probabilistic: Option<(AcceptBox, Option<u64>)>,
     timer: &Timer,
 ) -> MappedPaths {
-    let mut pool = Pool::new(nthreads as u32);
-
     let best_memory = Mutex::new(vec![usize::MAX; num_bits + 1]);
     let results: Mutex<MappedPaths> = Mutex::new(HashMap::new());
     let mut probabilistic = match probabilistic {
@@ -57,7 +92,7 @@ pub fn search(
     };
 
     let mut ntasks = 0;
-    pool.scoped(|scope| {
+    scoped(nthreads, |scope| {
         // we parallelize by splitting the search in the first layer of the tree
         //
         // if probabilistic is true, one should maybe already skip here according to
-- 
2.43.0

