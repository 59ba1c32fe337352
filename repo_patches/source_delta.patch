From 47ebf631927134f3030a6e2bb1be7dbe3733a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 1/9] fix: do not overwrite a better shared result when merging
 a finished search task

A task's best memory array contains bounds which it took over from other tasks, so
comparing only that array with the shared one let a task replace the better result
of another task by its own worse one.
---
 mbqc_scheduling/src/search/threaded.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..e83986a 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -150,8 +150,12 @@ fn task(
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
             // collected a result for them (which is okay there)
+            // furthermore, this_mem might come from another task (cf. [update]), in
+            // which case our result may be worse than the one of that task
             if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+                if mem.0 <= this_mem {
+                    results.insert(time, mem);
+                }
             }
         }
     }
-- 
2.43.0


From ed41d502286dfec93560d1b425394a5de30359ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 2/9] fix: return NotMeasurable instead of panicking for an
 oversized measure set

---
 mbqc_scheduling/src/scheduler/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..412960d 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -201,7 +201,7 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
         let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+            Vec::with_capacity(self.measurable.set().len().saturating_sub(measure_set.len()));
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 7217f1b46fd1c949948d65644af43705186e7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 3/9] fix: do not start queued search tasks after the timeout

---
 mbqc_scheduling/src/search/threaded.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index e83986a..412e011 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -114,6 +114,12 @@ fn task(
 ) {
     let _span = tracing::debug_span!("search task", ntasks).entered();
 
+    // the task might have been queued until after the timeout
+    if timer.finished() {
+        tracing::info!("timer: timeout");
+        return;
+    }
+
     tracing::debug!(
         "START: measure: {:?}; best_memory: {:?}",
         measure,
-- 
2.43.0


From e55718b7a123261bb0f3f2a2cef4f14011f79710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 4/9] fix: respect a task bound of 0 in the multi-threaded
 search

---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 412e011..0cab277 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks != task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -82,9 +86,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From 16ffa456706a3d9d70477658916b9071f0869496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 5/9] fix: do not create further search tasks after the timeout

---
 mbqc_scheduling/src/search/threaded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 0cab277..958b428 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,7 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while ntasks != task_bound {
+        while ntasks != task_bound && !timer.finished() {
             let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
             else {
                 break;
-- 
2.43.0


From 141ddd08297d8aa35aadcdabae6338270e2d01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 6/9] verification hooks (guarded by cfg mbqc_verif)

---
 mbqc_scheduling/src/lib.rs             |  5 ++
 mbqc_scheduling/src/search.rs          |  4 ++
 mbqc_scheduling/src/search/threaded.rs | 28 ++++++++
 mbqc_scheduling/src/verif.rs           | 89 ++++++++++++++++++++++++++
 4 files changed, 126 insertions(+)
 create mode 100644 mbqc_scheduling/src/verif.rs

diff --git a/mbqc_scheduling/src/lib.rs b/mbqc_scheduling/src/lib.rs
index 0e0821e..d595bfd 100644
--- a/mbqc_scheduling/src/lib.rs
+++ b/mbqc_scheduling/src/lib.rs
@@ -10,6 +10,9 @@ scheduling process and [search] implements based on that the search for the opti
 schedule patterns.
 */
 
+// `mbqc_verif` is only set by the verification framework
+#![allow(unexpected_cfgs)]
+
 macro_rules! non_semantic_default {
     () => {
         "Note that semantically, this impl makes not much sense. It is rather useful for \
@@ -22,3 +25,5 @@ pub mod probabilistic;
 pub mod scheduler;
 pub mod search;
 pub mod timer;
+#[cfg(mbqc_verif)]
+pub mod verif;
diff --git a/mbqc_scheduling/src/search.rs b/mbqc_scheduling/src/search.rs
index b11ac5a..9e96e59 100644
--- a/mbqc_scheduling/src/search.rs
+++ b/mbqc_scheduling/src/search.rs
@@ -153,6 +153,8 @@ fn do_search(
     // in the following array, the time cost is the index and the memory cost is the value
     let mut best_memory = vec![usize::MAX; num_bits + 1];
     while let Some(step) = scheduler.next() {
+        #[cfg(mbqc_verif)]
+        crate::verif::step(&step, &current_path, timer);
         match step {
             Step::Forward(measure) => {
                 if forward(measure, &mut scheduler, &best_memory, &mut current_path) {
@@ -245,6 +247,8 @@ fn do_probabilistic_search(
         let last_cur_mem = space.current_memory();
         let last_max_mem = space.max_memory();
         if let Some(step) = scheduler.next() {
+            #[cfg(mbqc_verif)]
+            crate::verif::step(&step, &current_path, timer);
             match step {
                 Step::Forward(measure) => {
                     if probabilistic_forward(
diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 958b428..3a42bf9 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -114,6 +114,8 @@ fn task(
     probabilistic: Option<(&Accept, u64)>,
 ) {
     let _span = tracing::debug_span!("search task", ntasks).entered();
+    #[cfg(mbqc_verif)]
+    crate::verif::gate(crate::verif::Point::Task(ntasks));
 
     // the task might have been queued until after the timeout
     if timer.finished() {
@@ -139,12 +141,16 @@ fn task(
         do_search(scheduler.into_iter(), measure.map(|e| vec![e]), best_memory, timer)
     };
 
+    #[cfg(mbqc_verif)]
+    crate::verif::event(crate::verif::Event::Done(&new_results, &this_best_mem));
     tracing::debug!("DONE: results {:?}; best_memory {:?}", new_results, this_best_mem,);
 
     if new_results.is_empty() {
         return;
     }
 
+    #[cfg(mbqc_verif)]
+    crate::verif::gate(crate::verif::Point::Merge);
     let mut shared_best_mem = best_memory.lock().expect("failed to lock best_memory");
     let mut results = results.lock().expect("failed to lock results");
 
@@ -166,6 +172,8 @@ fn task(
             }
         }
     }
+    #[cfg(mbqc_verif)]
+    crate::verif::event(crate::verif::Event::Merge(&results, &shared_best_mem));
 }
 
 #[inline]
@@ -175,8 +183,14 @@ fn update(
     update_counter: &mut usize,
     timer: &Timer,
 ) -> bool {
+    #[cfg(mbqc_verif)]
+    if crate::verif::sync_now() {
+        *update_counter = UPDATE_INTERVAL;
+    }
     //
     if *update_counter == UPDATE_INTERVAL {
+        #[cfg(mbqc_verif)]
+        crate::verif::gate(crate::verif::Point::Sync);
         best_memory
             .lock()
             .expect("failed to lock best_memory")
@@ -187,6 +201,8 @@ fn update(
                 Ordering::Less => *shared_mem = *this_mem,
                 Ordering::Equal => {},
             });
+        #[cfg(mbqc_verif)]
+        crate::verif::event(crate::verif::Event::Sync(this_best_mem));
         *update_counter = 1; // zero means we never updated; NEVER SET IT TO 0!!!!!!!!
         timer.finished()
     } else {
@@ -204,14 +220,20 @@ fn do_search(
     let mut results = HashMap::new();
     let was_initialized = init_path.is_some();
     let mut current_path = init_path.unwrap_or_default();
+    #[cfg(mbqc_verif)]
+    crate::verif::gate(crate::verif::Point::Snapshot);
     let mut this_best_mem =
         best_memory.lock().expect("failed to lock predicates").to_vec();
+    #[cfg(mbqc_verif)]
+    crate::verif::event(crate::verif::Event::Snapshot(&this_best_mem));
     // we usually start counting at 1, however, for the first round we have the special
     // case that we may not update at all, and we want to catch that case, which is
     // "encoded" by 0 here; cf. the conditional ...==0 below
     let mut update_counter = 0;
 
     while let Some(step) = scheduler.next() {
+        #[cfg(mbqc_verif)]
+        crate::verif::step(&step, &current_path, timer);
         match step {
             Step::Forward(measure) => {
                 if super::forward(
@@ -260,8 +282,12 @@ fn do_probabilistic_search(
     let mut results = HashMap::new();
     let was_initialized = init_path.is_some();
     let mut current_path = init_path.unwrap_or_default();
+    #[cfg(mbqc_verif)]
+    crate::verif::gate(crate::verif::Point::Snapshot);
     let mut this_best_mem =
         best_memory.lock().expect("failed to lock best_memory").to_vec();
+    #[cfg(mbqc_verif)]
+    crate::verif::event(crate::verif::Event::Snapshot(&this_best_mem));
     let mut update_counter = 0;
 
     let mut rng = Pcg64::seed_from_u64(seed);
@@ -272,6 +298,8 @@ fn do_probabilistic_search(
         let last_cur_mem = space.current_memory();
         let last_max_mem = space.max_memory();
         if let Some(step) = scheduler.next() {
+            #[cfg(mbqc_verif)]
+            crate::verif::step(&step, &current_path, timer);
             match step {
                 Step::Forward(measure) => {
                     if super::probabilistic_forward(
diff --git a/mbqc_scheduling/src/verif.rs b/mbqc_scheduling/src/verif.rs
new file mode 100644
index 0000000..25739d2
--- /dev/null
+++ b/mbqc_scheduling/src/verif.rs
@@ -0,0 +1,89 @@
+//! Observation points for the verification framework (only with `--cfg mbqc_verif`).
+//!
+//! The points do nothing until an [Observer] is [install]ed. They tell it what a search
+//! is about to do or has just done, and allow it to delay the calling thread and to let a
+//! search task of a multi-threaded search synchronize earlier than it usually would.
+
+use std::{
+    collections::HashMap,
+    sync::{Arc, RwLock},
+};
+
+use crate::{scheduler::tree::Step, search::Steps, timer::Timer};
+
+/// A point in a multi-threaded search just before shared data is locked.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Point {
+    /// A worker thread starts with the task with the given number.
+    Task(i64),
+    /// Before copying the shared best memory.
+    Snapshot,
+    /// Before exchanging the best memory with the shared one.
+    Sync,
+    /// Before merging the results into the shared ones.
+    Merge,
+}
+
+/// Something that has just happened in a multi-threaded search.
+pub enum Event<'l> {
+    Snapshot(&'l [usize]),
+    Sync(&'l [usize]),
+    Done(&'l HashMap<usize, (usize, Steps)>, &'l [usize]),
+    /// Emitted while the shared data is still locked.
+    Merge(&'l HashMap<usize, (usize, Steps)>, &'l [usize]),
+}
+
+pub trait Observer: Send + Sync {
+    fn gate(&self, _point: Point) {}
+    fn event(&self, _event: Event) {}
+    /// Called for each step of a sweep before it is processed; `path` is the path before
+    /// the step.
+    fn step(
+        &self,
+        _step: &Step<Vec<usize>, Option<usize>>,
+        _path: &Steps,
+        _timer: &Timer,
+    ) {
+    }
+    /// Whether the task should synchronize after the current step.
+    fn sync_now(&self) -> bool {
+        false
+    }
+}
+
+static OBSERVER: RwLock<Option<Arc<dyn Observer>>> = RwLock::new(None);
+
+/// Install (or remove) the observer.
+pub fn install(observer: Option<Arc<dyn Observer>>) {
+    *OBSERVER.write().unwrap() = observer;
+}
+
+fn observer() -> Option<Arc<dyn Observer>> {
+    OBSERVER.read().unwrap().clone()
+}
+
+pub(crate) fn gate(point: Point) {
+    if let Some(o) = observer() {
+        o.gate(point);
+    }
+}
+
+pub(crate) fn event(event: Event) {
+    if let Some(o) = observer() {
+        o.event(event);
+    }
+}
+
+pub(crate) fn step(
+    step: &Step<Vec<usize>, Option<usize>>,
+    path: &Steps,
+    timer: &Timer,
+) {
+    if let Some(o) = observer() {
+        o.step(step, path, timer);
+    }
+}
+
+pub(crate) fn sync_now() -> bool {
+    observer().is_some_and(|o| o.sync_now())
+}
-- 
2.43.0


From b4c2bdbd40e31b2cbd3fe7eb4a4f934c055307ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 7/9] verification hooks: the shared data is behind an observed
 mutex (guarded by cfg mbqc_verif)

---
 mbqc_scheduling/src/search/threaded.rs |  6 ++++-
 mbqc_scheduling/src/verif.rs           | 36 +++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 3a42bf9..34ec6a7 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -11,13 +11,17 @@
 // (We also lock the results, but I don't think this is a problem, because it is not often
 // updated)
 
-use std::{cmp::Ordering, collections::HashMap, ops::Deref, sync::Mutex};
+#[cfg(not(mbqc_verif))]
+use std::sync::Mutex;
+use std::{cmp::Ordering, collections::HashMap, ops::Deref};
 
 use rand::{distributions::Uniform, Rng, SeedableRng};
 use rand_pcg::Pcg64;
 use scoped_threadpool::Pool;
 
 use super::{MappedPaths, Steps};
+#[cfg(mbqc_verif)]
+use crate::verif::Mutex;
 use crate::{
     probabilistic::{Accept, AcceptBox},
     scheduler::{
diff --git a/mbqc_scheduling/src/verif.rs b/mbqc_scheduling/src/verif.rs
index 25739d2..ad964b9 100644
--- a/mbqc_scheduling/src/verif.rs
+++ b/mbqc_scheduling/src/verif.rs
@@ -6,7 +6,7 @@
 
 use std::{
     collections::HashMap,
-    sync::{Arc, RwLock},
+    sync::{Arc, LockResult, MutexGuard, RwLock, TryLockError, TryLockResult},
 };
 
 use crate::{scheduler::tree::Step, search::Steps, timer::Timer};
@@ -36,6 +36,8 @@ pub enum Event<'l> {
 pub trait Observer: Send + Sync {
     fn gate(&self, _point: Point) {}
     fn event(&self, _event: Event) {}
+    /// Called before a [Mutex] is locked; `free` tells whether this would be possible now.
+    fn lock(&self, _free: &dyn Fn() -> bool) {}
     /// Called for each step of a sweep before it is processed; `path` is the path before
     /// the step.
     fn step(
@@ -87,3 +89,35 @@ pub(crate) fn step(
 pub(crate) fn sync_now() -> bool {
     observer().is_some_and(|o| o.sync_now())
 }
+
+/// As [std::sync::Mutex], but the observer is told when it is about to be locked.
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Self(std::sync::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        if let Some(o) = observer() {
+            o.lock(&|| !matches!(self.0.try_lock(), Err(TryLockError::WouldBlock)));
+        }
+        self.0.lock()
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        if let Some(o) = observer() {
+            o.lock(&|| true);
+        }
+        self.0.try_lock()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 285bf803db339407f9799165c46de88aa603ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 8/9] hooks: let the observed results be of any map type
 (guarded by cfg mbqc_verif)

---
 mbqc_scheduling/src/search/threaded.rs | 10 ++++++++--
 mbqc_scheduling/src/verif.rs           | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 34ec6a7..4b0f345 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -146,7 +146,10 @@ fn task(
     };
 
     #[cfg(mbqc_verif)]
-    crate::verif::event(crate::verif::Event::Done(&new_results, &this_best_mem));
+    crate::verif::event(crate::verif::Event::Done(
+        crate::verif::results(&new_results),
+        &this_best_mem,
+    ));
     tracing::debug!("DONE: results {:?}; best_memory {:?}", new_results, this_best_mem,);
 
     if new_results.is_empty() {
@@ -177,7 +180,10 @@ fn task(
         }
     }
     #[cfg(mbqc_verif)]
-    crate::verif::event(crate::verif::Event::Merge(&results, &shared_best_mem));
+    crate::verif::event(crate::verif::Event::Merge(
+        crate::verif::results(&*results),
+        &shared_best_mem,
+    ));
 }
 
 #[inline]
diff --git a/mbqc_scheduling/src/verif.rs b/mbqc_scheduling/src/verif.rs
index ad964b9..10e35d3 100644
--- a/mbqc_scheduling/src/verif.rs
+++ b/mbqc_scheduling/src/verif.rs
@@ -4,10 +4,7 @@
 //! is about to do or has just done, and allow it to delay the calling thread and to let a
 //! search task of a multi-threaded search synchronize earlier than it usually would.
 
-use std::{
-    collections::HashMap,
-    sync::{Arc, LockResult, MutexGuard, RwLock, TryLockError, TryLockResult},
-};
+use std::sync::{Arc, LockResult, MutexGuard, RwLock, TryLockError, TryLockResult};
 
 use crate::{scheduler::tree::Step, search::Steps, timer::Timer};
 
@@ -24,13 +21,22 @@ pub enum Point {
     Merge,
 }
 
+/// Results of a search: time, space and steps.
+pub type Results<'l> = Vec<(usize, usize, &'l Steps)>;
+
 /// Something that has just happened in a multi-threaded search.
 pub enum Event<'l> {
     Snapshot(&'l [usize]),
     Sync(&'l [usize]),
-    Done(&'l HashMap<usize, (usize, Steps)>, &'l [usize]),
+    Done(Results<'l>, &'l [usize]),
     /// Emitted while the shared data is still locked.
-    Merge(&'l HashMap<usize, (usize, Steps)>, &'l [usize]),
+    Merge(Results<'l>, &'l [usize]),
+}
+
+pub(crate) fn results<'l>(
+    map: impl IntoIterator<Item = (&'l usize, &'l (usize, Steps))>,
+) -> Results<'l> {
+    map.into_iter().map(|(time, (space, steps))| (*time, *space, steps)).collect()
 }
 
 pub trait Observer: Send + Sync {
-- 
2.43.0


From c0cc484a04e1b74bf64385b978bdcd65bee60b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 9/9] fix: a panic in a search task aborted the process

When the accept function panicked in the tasks of a multi-threaded search, the threads of
the pool were lost; with none left, the pool panicked while sending a task and again while
being joined, which aborts the process. Now the first panic is kept and resumed in the
thread that called the search, and no further tasks are started.
---
 mbqc_scheduling/src/search/threaded.rs | 61 +++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 4b0f345..52a5357 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -13,7 +13,14 @@
 
 #[cfg(not(mbqc_verif))]
 use std::sync::Mutex;
-use std::{cmp::Ordering, collections::HashMap, ops::Deref};
+use std::{
+    any::Any,
+    cmp::Ordering,
+    collections::HashMap,
+    ops::Deref,
+    panic::{self, AssertUnwindSafe},
+    sync,
+};
 
 use rand::{distributions::Uniform, Rng, SeedableRng};
 use rand_pcg::Pcg64;
@@ -48,6 +55,7 @@ pub fn search(
 
     let best_memory = Mutex::new(vec![usize::MAX; num_bits + 1]);
     let results: Mutex<MappedPaths> = Mutex::new(HashMap::new());
+    let panicked: Panicked = sync::Mutex::new(None);
     let mut probabilistic = match probabilistic {
         Some((ref func, seed)) => Some((
             func.deref(),
@@ -67,27 +75,30 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while ntasks != task_bound && !timer.finished() {
+        while ntasks != task_bound && !timer.finished() && !has_panicked(&panicked) {
             let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
             else {
                 break;
             };
             let best_memory = &best_memory;
             let results = &results;
+            let panicked = &panicked;
             let probabilistic = match probabilistic {
                 Some((func, ref mut rng)) => Some((func, rng.gen())),
                 None => None,
             };
             scope.execute(move || {
-                task(
-                    best_memory,
-                    results,
-                    scheduler_focused,
-                    ntasks,
-                    Some(init_measure),
-                    timer,
-                    probabilistic,
-                )
+                guard(panicked, || {
+                    task(
+                        best_memory,
+                        results,
+                        scheduler_focused,
+                        ntasks,
+                        Some(init_measure),
+                        timer,
+                        probabilistic,
+                    )
+                })
             });
             ntasks += 1;
         }
@@ -99,14 +110,40 @@ pub fn search(
             None => None,
         };
         let best_memory = &best_memory;
+        let panicked = &panicked;
         scope.execute(move || {
-            task(best_memory, results, scheduler, -1, None, timer, probabilistic)
+            guard(panicked, || {
+                task(best_memory, results, scheduler, -1, None, timer, probabilistic)
+            })
         });
     });
 
+    if let Some(payload) = panicked.into_inner().unwrap() {
+        panic::resume_unwind(payload);
+    }
     results.into_inner().unwrap()
 }
 
+/// The first panic of a task (the accept function may panic).
+type Panicked = sync::Mutex<Option<Box<dyn Any + Send>>>;
+
+fn has_panicked(panicked: &Panicked) -> bool {
+    panicked.lock().unwrap().is_some()
+}
+
+/// Run a task unless there is no point in it anymore, and keep its panic, so that it can
+/// be resumed in the thread which called the search. It must not reach the threadpool: it
+/// would cost the pool a worker, and once there is no worker left, the pool panics while
+/// it is already panicking, which aborts the process.
+fn guard(panicked: &Panicked, task: impl FnOnce()) {
+    if has_panicked(panicked) {
+        return;
+    }
+    if let Err(payload) = panic::catch_unwind(AssertUnwindSafe(task)) {
+        panicked.lock().unwrap().get_or_insert(payload);
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn task(
     best_memory: &Mutex<Vec<usize>>,
-- 
2.43.0

