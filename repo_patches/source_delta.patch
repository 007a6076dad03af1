From 6fc75b198df5d3c497d1b2a6c0f23f8ed6bc6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/28] fix: equal (including null) measurements on both passes
 are O(1), not NaN-classified

---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..543e849 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // same utilization on both passes -- possibly none at all, for which `u2 / u1` would not be a number
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // same utilization on both passes -- possibly none at all, for which `u2 / u1` would not be a number
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From a05c0d4ed5e507cf1dc6301db3d4c3341b66790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 02/28] fix: iterator passes run every element of the range,
 whatever the number of threads

---
 src/runners/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..cb54c83 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,12 +121,13 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        // balanced & contiguous chunks -- covering the whole range even if it isn't evenly divisible by `threads`
+        let i64_range = range.end as i64 .. range.start as i64;
+        let chunk_bound = |n: u32| i64_range.start + (i64_range.end-i64_range.start)*n as i64/threads as i64;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
+        for n in 0..threads {
+            let chunked_range = chunk_bound(n)..chunk_bound(n+1);
             thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
         }
 
-- 
2.43.0


From 69499bebde4fbacd927725f03d653a8873840e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 03/28] fix: CRUD operations given 0 threads are skipped
 instead of dividing by zero

---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..46c1de4 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -218,6 +218,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                                              CRUDComplexityAnalysisError>
                                    where PassResult: Copy {
 
+    // without threads, an operation can't be performed (nor analysed)
+    let create_iterations_per_pass = if create_threads > 0 { create_iterations_per_pass } else { 0 };
+    let read_iterations_per_pass   = if read_threads   > 0 { read_iterations_per_pass   } else { 0 };
+    let update_iterations_per_pass = if update_threads > 0 { update_iterations_per_pass } else { 0 };
+    let delete_iterations_per_pass = if delete_threads > 0 { delete_iterations_per_pass } else { 0 };
+
     let mut full_report = String::with_capacity(2048);
 
     // wrap around the original 'OUTPUT' function to capture the [full_report]
-- 
2.43.0


From 99ffb4f4f4e4d6ba9bc21c551dea0ac78213528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 04/28] fix: test_crud_algorithms() always performs at least
 one attempt

---
 src/runners/crud.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 46c1de4..bc7c175 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // even if no retries are wanted, the analysis must be performed
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From 28dac2a4c50923cc5d99b51b754f69073463ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/28] fix: retries with few iterations don't skip the
 operation

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index bc7c175..86c83fd 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -46,7 +46,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
-                0 => iterations_per_pass / factor,
+                0 => (iterations_per_pass / factor).max(iterations_per_pass.min(1)),   // never skips a requested operation
                 1 => iterations_per_pass - (iterations_per_pass / factor),
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
-- 
2.43.0


From c848703e20391b543b2e970555d54378d97891a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 06/28] fix: reset_fn is given the number of created elements
 when retrying

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 86c83fd..839d89f 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -87,7 +87,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 if attempt < max_retry_attempts-1 {
                     collected_errors.push(crud_analysis_error);
                     OUTPUT(&format!("\nAttempt {} failed. Resetting before retrying", attempt+1));
-                    reset_fn(100);  // 100% of the created elements
+                    reset_fn(if create_threads > 0 { adapted_create_iterations_per_pass * 2 } else { 0 });  // all elements created by both passes
                     OUTPUT("...\n");
                     continue;
                 } else {
-- 
2.43.0


From 5f49a915c5642977bece1ae06093c7700182e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 07/28] fix: warm up sizes don't overflow for large numbers of
 iterations

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 839d89f..1deb5ea 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -440,8 +440,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_size = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_size(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_size(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -467,7 +468,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_size(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From de8e74a673f2869303b02d52cb592532ebac8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 08/28] fix: the reset after an async warm up receives the
 warmed up data

---
 src/api/builders/regular_async_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index f3b7d24..f73f7af 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -97,7 +97,7 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
                 let (_warmup_pass_result, algo_data) = run_async_pass_verbosely("  Warming up: ", ";", algo_data, warmup_fn, OUTPUT).await;
                 // reset again
                 if let Some(reset_fn) = &mut self.reset_fn {
-                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", None, reset_fn, OUTPUT).await;
+                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", Some(algo_data), reset_fn, OUTPUT).await;
                     Some(algo_data)     // return the "after second reset" data
                 } else {
                     Some(algo_data)     // return the "after warmup" data
-- 
2.43.0


From f3aade087b55a8df7de2eab5b9e3556d608059dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 09/28] fix: ring-buffer overflow errors stick to the consumer
 on further dequeues

---
 src/metrics_allocator/ring_buffer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..b9839ed 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -128,6 +128,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                        // the element is lost: any further operations should yield this same error
+                        self.head.fetch_min(head, Ordering::Relaxed);
                         return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
-- 
2.43.0


From 8f507b892da04444744e22d985e96c1d2e9c6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/28] fix: peek_all() detects overflows caused by still
 unpublished elements

---
 src/metrics_allocator/ring_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index b9839ed..f70ff40 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -167,7 +167,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        } else if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
-- 
2.43.0


From 59b553f4869a3adc565aa86bcbbce0e94ac4c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 11/28] fix: consumers acquire the published elements

---
 src/metrics_allocator/ring_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index f70ff40..0e20e5a 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -115,7 +115,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -162,7 +162,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From 7937c4f76757112fca808b3928a61cbf608b9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 12/28] fix: enqueueing doesn't drop uninitialized slots

---
 src/metrics_allocator/ring_buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 0e20e5a..c8b60d4 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -63,7 +63,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            // first lap: the slot is still uninitialized -- there is nothing to drop
+            unsafe { std::ptr::write(&mut mutable_buffer[reserved_tail as usize], element) };
+        } else {
+            mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        }
 
         // publish the new element for consumption
         loop {
-- 
2.43.0


From 92012e0b34d2954c049459c9f083ea2886223bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/28] fix: delta statistics always include the memory usage
 at both ends of the measurement

---
 src/metrics_allocator/metrics_allocator.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0ee6c80 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -171,8 +171,11 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     /// Returns the allocation statistics between now and the point in time when `save_point` was generated
     /// (with a call to [save_point()](MetricsAllocator::save_point())).
     pub fn delta_statistics(&self, save_point: &MetricsAllocatorSavePoint<RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
-        let mut min = usize::MAX;
-        let mut max = usize::MIN;
+        // a concurrent save point may reset the current (min,max) at any time,
+        // so start with the memory usage at both ends of the measurement
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        let mut min = current_used_memory.min(save_point.metrics.current_used_memory);
+        let mut max = current_used_memory.max(save_point.metrics.current_used_memory);
         // compute (min,max) since the given 'save_point'
         for peeked_chunk in save_point.used_memory_ring_buffer_consumer.peek_all()? {
             for subsequent_save_point in peeked_chunk {
@@ -193,7 +196,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
-- 
2.43.0


From b187bba7c0349f1eee4b4e7b379992511f618a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 14/28] fix: failed allocations are not accounted for

---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0ee6c80..3d7d291 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -270,20 +270,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let allocated = self.system_allocator.alloc(layout);
+        if !allocated.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        allocated
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let allocated = self.system_allocator.alloc_zeroed(layout);
+        if !allocated.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        allocated
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let reallocated = self.system_allocator.realloc(ptr, layout, new_size);
+        if !reallocated.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        reallocated
     }
 }
 
-- 
2.43.0


From a714a768009371f066d4cbd55ffdfa0d081179f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 15/28] fix: memory usage peaks aren't missed when other
 threads deallocate

---
 src/metrics_allocator/metrics_allocator.rs | 23 +++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 3d7d291..df22728 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -206,24 +206,24 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory + layout.size());
     }
 
     /// compute metrics for de-allocation
     fn compute_dealloc_metrics(&self, layout: &Layout) {
         self.statistics.deallocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.deallocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory - layout.size());
     }
 
     /// compute metrics for zeroed allocation
     fn compute_alloc_zeroed_metrics(&self, layout: &Layout) {
         self.statistics.zeroed_allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.zeroed_allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory + layout.size());
     }
 
     /// compute metrics for re-allocation
@@ -232,16 +232,17 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         self.statistics.reallocated_originals_bytes.fetch_add(layout.size(), Ordering::Relaxed);
         self.statistics.reallocated_news_bytes.fetch_add(new_size, Ordering::Relaxed);
         if new_size > layout.size() {
-            self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            let previously_used_memory = self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            self.compute_min_and_max_used_memories(previously_used_memory + (new_size-layout.size()));
         } else if new_size < layout.size() {
-            self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            let previously_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            self.compute_min_and_max_used_memories(previously_used_memory - (layout.size()-new_size));
         }
-        self.compute_min_and_max_used_memories();
     }
 
     /// helper functions for metrics computation
-    fn compute_min_and_max_used_memories(&self) {
-        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+    ///   - `current_used_memory` -- the memory usage this very operation lead to
+    fn compute_min_and_max_used_memories(&self, current_used_memory: usize) {
         let mut min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
         loop {
             if current_used_memory < min_used_memory {
-- 
2.43.0


From 5d6b4c64627afb2cabe64bb8e86cf522f2144e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 16/28] fix: used_auxiliary_space() doesn't overflow on
 intermediate results

---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..fcfe493 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -154,8 +154,8 @@ impl BigOSpaceMeasurements {
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From 108ea557b3716916d2002a0704d0094ae10dee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 17/28] fix: small memory variations over big baselines keep
 their sign on the reports

---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index fcfe493..7bb18ac 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From bb226410a88f5af3bd8ad7b68dcdee6af84c9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 18/28] fix: lost memory measurements are never taken for an
 improvement

---
 src/low_level_analysis/space_analysis.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/low_level_analysis/space_analysis.rs b/src/low_level_analysis/space_analysis.rs
index 07e8a05..d37fcf0 100644
--- a/src/low_level_analysis/space_analysis.rs
+++ b/src/low_level_analysis/space_analysis.rs
@@ -14,6 +14,10 @@ use crate::low_level_analysis::{
 pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
                                 measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
+    if lost_measurements(measurements) {
+        return BigOAlgorithmComplexity::WorseThanExponential;
+    }
+
     // max mem usage
     let s1 = (measurements.pass_1_measurements.max_used_memory - measurements.pass_1_measurements.used_memory_before) as f64;
     let s2 = (measurements.pass_2_measurements.max_used_memory - measurements.pass_2_measurements.used_memory_before) as f64;
@@ -37,6 +41,10 @@ pub fn analyse_space_complexity(passes_info:  &AlgorithmPassesInfo,
 pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:  &ConstantSetIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
+    if lost_measurements(measurements) {
+        return BigOAlgorithmComplexity::WorseThanExponential;
+    }
+
     // max mem usage
     let s1 = (measurements.pass_1_measurements.max_used_memory - measurements.pass_1_measurements.used_memory_before) as f64;
     let s2 = (measurements.pass_2_measurements.max_used_memory - measurements.pass_2_measurements.used_memory_before) as f64;
@@ -62,6 +70,10 @@ pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:
 pub fn analyse_space_complexity_for_set_resizing_iterator_algorithm(passes_info:  &SetResizingIteratorAlgorithmPassesInfo,
                                                                     measurements: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
 
+    if lost_measurements(measurements) {
+        return BigOAlgorithmComplexity::WorseThanExponential;
+    }
+
     let n = passes_info.delta_set_size as f64;
 
     // max mem used
@@ -71,6 +83,12 @@ pub fn analyse_space_complexity_for_set_resizing_iterator_algorithm(passes_info:
     analyse_set_resizing_iterator_complexity(s1, s2, n)
 }
 
+/// tells if any of the passes had its memory statistics lost -- see the sentinel value on [crate::runners::common]:
+/// as nothing is known about them, no space requirements may be considered fulfilled
+fn lost_measurements(measurements: &BigOSpaceMeasurements) -> bool {
+    measurements.pass_1_measurements.max_used_memory == usize::MAX || measurements.pass_2_measurements.max_used_memory == usize::MAX
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From d617427301c7492c54f7852a3364bba5338fd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 19/28] verification hooks, guarded by --cfg big_o_verif

---
 src/lib.rs                                 |   2 +
 src/metrics_allocator/metrics_allocator.rs |   3 +
 src/metrics_allocator/ring_buffer.rs       |   3 +
 src/verif_hooks.rs                         | 175 +++++++++++++++++++++
 4 files changed, 183 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..8db32a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,8 @@ pub mod low_level_analysis;
 pub mod metrics_allocator;
 mod features;
 pub(crate) mod utils;
+#[cfg(big_o_verif)]
+pub mod verif_hooks;
 
 // exported symbols
 pub use {
diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index df22728..1e6384c 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -1,7 +1,10 @@
 //! See [super]
 
 use std::fmt::{Formatter, Display, Debug};
+#[cfg(not(big_o_verif))]
 use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(big_o_verif)]
+use crate::verif_hooks::atomic::*;
 use std::alloc::{System, GlobalAlloc, Layout};
 
 use crate::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer, RingBufferOverflowError};
diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index c8b60d4..f222333 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,10 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
+#[cfg(not(big_o_verif))]
 use std::sync::atomic::{AtomicU32, Ordering};
+#[cfg(big_o_verif)]
+use crate::verif_hooks::atomic::*;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..b3c9c6f
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,175 @@
+//! Verification hooks: only compiled under `--cfg big_o_verif` -- never part of regular builds.
+//!
+//! Allows external model-checking harnesses to observe (and schedule) the atomic operations
+//! performed by [crate::metrics_allocator], as well as to reach crate-private utilities.
+
+pub use crate::utils::measurements::{measurer, presentable_measurements};
+
+/// Drop-in replacements for `std::sync::atomic` types, reporting all operations to the registered observers
+pub mod atomic {
+
+    use std::sync::atomic as std_atomic;
+    pub use std_atomic::Ordering;
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub enum OpKind { Load, Store, Rmw, Cas, CasWeak, Fence }
+
+    /// An atomic operation, as seen by the observers
+    #[derive(Debug, Clone, Copy)]
+    pub struct Op {
+        /// address of the atomic variable (0 for fences)
+        pub addr: usize,
+        pub kind: OpKind,
+        /// the (success) ordering
+        pub order: Ordering,
+        /// the ordering for failures of compare & exchange operations
+        pub failure_order: Ordering,
+    }
+
+    /// The effects of an atomic operation
+    #[derive(Debug, Clone, Copy)]
+    pub struct Effect {
+        pub read: u64,
+        /// `None` if nothing was written
+        pub written: Option<u64>,
+    }
+
+    /// Called right before the operation takes place. When it returns `true`, a "weak" compare & exchange fails spuriously
+    pub type BeforeFn = fn(&Op) -> bool;
+    /// Called right after the operation took place
+    pub type AfterFn = fn(&Op, &Effect);
+
+    static BEFORE: std_atomic::AtomicPtr<()> = std_atomic::AtomicPtr::new(std::ptr::null_mut());
+    static AFTER:  std_atomic::AtomicPtr<()> = std_atomic::AtomicPtr::new(std::ptr::null_mut());
+
+    /// Registers the observers. Notice they may be called from within the global allocator.
+    pub fn observe(before: BeforeFn, after: AfterFn) {
+        AFTER.store(after as *mut (), Ordering::SeqCst);
+        BEFORE.store(before as *mut (), Ordering::SeqCst);
+    }
+
+    #[inline]
+    fn before(op: &Op) -> bool {
+        let observer = BEFORE.load(Ordering::Acquire);
+        if observer.is_null() { return false }
+        (unsafe { std::mem::transmute::<*mut (), BeforeFn>(observer) })(op)
+    }
+    #[inline]
+    fn after(op: &Op, effect: &Effect) {
+        let observer = AFTER.load(Ordering::Acquire);
+        if observer.is_null() { return }
+        (unsafe { std::mem::transmute::<*mut (), AfterFn>(observer) })(op, effect)
+    }
+
+    pub fn fence(order: Ordering) {
+        let op = Op { addr: 0, kind: OpKind::Fence, order, failure_order: Ordering::Relaxed };
+        before(&op);
+        std_atomic::fence(order);
+        after(&op, &Effect { read: 0, written: None });
+    }
+    pub use std_atomic::compiler_fence;
+
+    macro_rules! common_impl {
+        ($name: ident, $t: ty) => {
+            #[derive(Debug)]
+            #[repr(transparent)]
+            pub struct $name(std_atomic::$name);
+            impl Default for $name {
+                fn default() -> Self { Self::new(Default::default()) }
+            }
+            impl From<$t> for $name {
+                fn from(v: $t) -> Self { Self::new(v) }
+            }
+            impl $name {
+                pub const fn new(v: $t) -> Self { Self(std_atomic::$name::new(v)) }
+                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
+                pub fn into_inner(self) -> $t { self.0.into_inner() }
+                pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
+                fn op(&self, kind: OpKind, order: Ordering, failure_order: Ordering) -> Op {
+                    Op { addr: self as *const Self as usize, kind, order, failure_order }
+                }
+                pub fn load(&self, order: Ordering) -> $t {
+                    let op = self.op(OpKind::Load, order, order);
+                    before(&op);
+                    let read = self.0.load(order);
+                    after(&op, &Effect { read: read as u64, written: None });
+                    read
+                }
+                pub fn store(&self, v: $t, order: Ordering) {
+                    let op = self.op(OpKind::Store, order, order);
+                    before(&op);
+                    self.0.store(v, order);
+                    after(&op, &Effect { read: 0, written: Some(v as u64) });
+                }
+                fn rmw(&self, order: Ordering, f: impl Fn($t) -> $t, g: impl FnOnce(&std_atomic::$name) -> $t) -> $t {
+                    let op = self.op(OpKind::Rmw, order, order);
+                    before(&op);
+                    let read = g(&self.0);
+                    after(&op, &Effect { read: read as u64, written: Some(f(read) as u64) });
+                    read
+                }
+                pub fn swap(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |_| v, |a| a.swap(v, order)) }
+                fn cas(&self, kind: OpKind, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                    let op = self.op(kind, success, failure);
+                    if before(&op) && kind == OpKind::CasWeak {
+                        let read = self.0.load(failure);
+                        after(&op, &Effect { read: read as u64, written: None });
+                        return Err(read);
+                    }
+                    let result = self.0.compare_exchange(current, new, success, failure);
+                    match result {
+                        Ok(read)  => after(&op, &Effect { read: read as u64, written: Some(new as u64) }),
+                        Err(read) => after(&op, &Effect { read: read as u64, written: None }),
+                    }
+                    result
+                }
+                pub fn compare_exchange(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                    self.cas(OpKind::Cas, current, new, success, failure)
+                }
+                pub fn compare_exchange_weak(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                    self.cas(OpKind::CasWeak, current, new, success, failure)
+                }
+                pub fn fetch_update(&self, set_order: Ordering, fetch_order: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+                pub fn try_update(&self, set_order: Ordering, fetch_order: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
+                    self.fetch_update(set_order, fetch_order, f)
+                }
+                pub fn update(&self, set_order: Ordering, fetch_order: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
+                    self.fetch_update(set_order, fetch_order, |v| Some(f(v))).unwrap()
+                }
+                pub fn fetch_and(&self, v: $t, order: Ordering)  -> $t { self.rmw(order, |r| r & v,    |a| a.fetch_and(v, order)) }
+                pub fn fetch_nand(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |r| !(r & v), |a| a.fetch_nand(v, order)) }
+                pub fn fetch_or(&self, v: $t, order: Ordering)   -> $t { self.rmw(order, |r| r | v,    |a| a.fetch_or(v, order)) }
+                pub fn fetch_xor(&self, v: $t, order: Ordering)  -> $t { self.rmw(order, |r| r ^ v,    |a| a.fetch_xor(v, order)) }
+            }
+        }
+    }
+    macro_rules! numeric_impl {
+        ($name: ident, $t: ty) => {
+            common_impl!($name, $t);
+            impl $name {
+                pub fn fetch_add(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |r| r.wrapping_add(v), |a| a.fetch_add(v, order)) }
+                pub fn fetch_sub(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |r| r.wrapping_sub(v), |a| a.fetch_sub(v, order)) }
+                pub fn fetch_min(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |r| r.min(v),          |a| a.fetch_min(v, order)) }
+                pub fn fetch_max(&self, v: $t, order: Ordering) -> $t { self.rmw(order, |r| r.max(v),          |a| a.fetch_max(v, order)) }
+            }
+        }
+    }
+    common_impl!(AtomicBool, bool);
+    numeric_impl!(AtomicU8, u8);
+    numeric_impl!(AtomicU16, u16);
+    numeric_impl!(AtomicU32, u32);
+    numeric_impl!(AtomicU64, u64);
+    numeric_impl!(AtomicUsize, usize);
+    numeric_impl!(AtomicI32, i32);
+    numeric_impl!(AtomicI64, i64);
+    numeric_impl!(AtomicIsize, isize);
+}
-- 
2.43.0


From 3efe3cce6c5c5d86cd7eb6a2f0da6f69acc571ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 20/28] verification hook: custom measurers of the async
 builder, guarded by --cfg big_o_verif

---
 src/api/builders/regular_async_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index f73f7af..9f620c5 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -195,6 +195,12 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
 
     }
 
+    /// verification hook: runs the passes along with the custom measurers
+    #[cfg(big_o_verif)]
+    pub async fn verif_test_run(self) {
+        self.test_run().await
+    }
+
     async fn test_run(mut self) {
         println!("## Wonderful!! We are ready to run.");
         println!("## This is the data we got:");
-- 
2.43.0


From 87663ed7e98b7c21fa55acdc9db32abe88d6bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 21/28] fix: ring-buffer overflow errors stick to the consumer
 under concurrency too

---
 src/metrics_allocator/ring_buffer.rs | 54 +++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index f222333..e79d096 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -5,7 +5,7 @@
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
 #[cfg(not(big_o_verif))]
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 #[cfg(big_o_verif)]
 use crate::verif_hooks::atomic::*;
 use std::mem::MaybeUninit;
@@ -51,6 +51,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
             head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
     }
@@ -111,6 +112,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
     head: AtomicU32,
+    /// set once an element was lost: no further operations are possible
+    overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -124,6 +127,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
             let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+            if self.overflowed.load(Ordering::Relaxed) {
+                return Err(self.overflow_error(published_tail, head));
+            }
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -131,14 +137,21 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            if self.is_lost(head) {
+                // no element may be taken after a lost one -- provided it wasn't delivered in the meantime
+                let reloaded_head = self.head.load(Ordering::Relaxed);
+                if reloaded_head != head {
+                    head = reloaded_head;
+                    continue;
+                }
+                return Err(self.overflow_error(published_tail, head));
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        // the element is lost: any further operations should yield this same error
-                        self.head.fetch_min(head, Ordering::Relaxed);
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+                    if self.is_lost(head) {
+                        return Err(self.overflow_error(published_tail, head));
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
                 },
@@ -169,14 +182,26 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        let mut head = self.head.load(Ordering::Relaxed);
+        let published_tail = loop {
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+            if self.overflowed.load(Ordering::Relaxed) {
+                return Err(self.overflow_error(published_tail, head));
+            }
+            if head == published_tail || (head < published_tail && !self.is_lost(head)) {
+                break published_tail;
+            }
+            // elements are only lost if they weren't dequeued in the meantime
+            let reloaded_head = self.head.load(Ordering::Relaxed);
+            if reloaded_head == head && head < published_tail {
+                return Err(self.overflow_error(published_tail, head));
+            }
+            head = reloaded_head;
+        };
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
             Ok([&[],&[]])
-        } else if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-            Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
                 // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
@@ -194,6 +219,17 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
+    /// tells if the element at `head` was -- or is being -- overwritten
+    fn is_lost(&self, head: u32) -> bool {
+        self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32
+    }
+
+    /// renders this consumer unusable: any further operations will yield an error, on any thread
+    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+        self.overflowed.store(true, Ordering::Relaxed);
+        RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
+    }
+
 }
 
 
-- 
2.43.0


From 3c50143d889c8e3f85c4e57c530c94eca5ec7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 22/28] fix: enqueueing waits for the element it replaces to be
 completely written

With as many concurrent enqueues as slots, an element could be written over (and released)
before being written, or while it was; its release also raced with its writing.
---
 src/metrics_allocator/ring_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index e79d096..895aca6 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -71,6 +71,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             // first lap: the slot is still uninitialized -- there is nothing to drop
             unsafe { std::ptr::write(&mut mutable_buffer[reserved_tail as usize], element) };
         } else {
+            // the element to be replaced (and dropped) might still be being written by another thread
+            while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+                std::hint::spin_loop();
+            }
             mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
         }
 
-- 
2.43.0


From fa1b512f5623f9c5d90b857bd5878eb6c6115ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 23/28] verification hook: custom unit rates, guarded by --cfg
 big_o_verif

---
 src/utils/measurements/presentable_measurements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..d167a79 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,12 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+/// Verification hook: reaches the private [custom_unit_per_second_measurement()]
+#[cfg(big_o_verif)]
+pub fn verif_custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
+    custom_unit_per_second_measurement(value, custom_unit)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 72deafadb39ae6df060af805c033ef511ca8fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 24/28] fix: a pass whose memory statistics were lost is not
 reported as freed memory

---
 src/low_level_analysis/types/types_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 7bb18ac..aff2232 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -148,8 +148,10 @@ impl BigOSpaceMeasurements {
     /// returns the resulting used memory, obtained from the space complexity analysis measurements --
     /// >0 if memory was allocated and <0 if memory was freed
     pub fn used_memory_delta(&self) -> isize {
-        self.pass_2_measurements.used_memory_after as isize - self.pass_2_measurements.used_memory_before as isize +
-            self.pass_1_measurements.used_memory_after as isize - self.pass_1_measurements.used_memory_before as isize
+        // the sum may exceed an `isize` -- e.g., when the statistics of a pass were lost
+        let pass_delta = |pass: &BigOSpacePassMeasurements| pass.used_memory_after as i128 - pass.used_memory_before as i128;
+        (pass_delta(&self.pass_2_measurements) + pass_delta(&self.pass_1_measurements))
+            .clamp(-(isize::MAX as i128), isize::MAX as i128) as isize
     }
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
-- 
2.43.0


From eafb8b12d1839359fdf729b65ccda909d50d2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:27 +0000
Subject: [PATCH 25/28] fix: ring buffers keep working after 2^32 enqueues

---
 src/metrics_allocator/ring_buffer.rs | 34 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 895aca6..1552719 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -5,7 +5,9 @@
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
 #[cfg(not(big_o_verif))]
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
+#[cfg(all(test, not(big_o_verif)))]
+use std::sync::atomic::AtomicU32;
 #[cfg(big_o_verif)]
 use crate::verif_hooks::atomic::*;
 use std::mem::MaybeUninit;
@@ -22,9 +24,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicU64,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicU64,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -41,8 +43,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicU64::new(0),
+            published_tail: AtomicU64::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -50,7 +52,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicU64::new(self.published_tail.load(Ordering::Relaxed)),
             overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
@@ -67,15 +69,15 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+        if reserved_tail < RING_BUFFER_SIZE as u64 {
             // first lap: the slot is still uninitialized -- there is nothing to drop
             unsafe { std::ptr::write(&mut mutable_buffer[reserved_tail as usize], element) };
         } else {
             // the element to be replaced (and dropped) might still be being written by another thread
-            while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+            while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u64 {
                 std::hint::spin_loop();
             }
-            mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+            mutable_buffer[(reserved_tail % RING_BUFFER_SIZE as u64) as usize] = element;
         }
 
         // publish the new element for consumption
@@ -115,7 +117,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicU64,
     /// set once an element was lost: no further operations are possible
     overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
@@ -157,7 +159,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                     if self.is_lost(head) {
                         return Err(self.overflow_error(published_tail, head));
                     }
-                    return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
+                    return Ok(Some(&array[(head % RING_BUFFER_SIZE as u64) as usize]))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -202,8 +204,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             }
             head = reloaded_head;
         };
-        let head_index           = head as usize % RING_BUFFER_SIZE;
-        let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
+        let head_index           = (head % RING_BUFFER_SIZE as u64) as usize;
+        let published_tail_index = (published_tail % RING_BUFFER_SIZE as u64) as usize;
         if head == published_tail {
             Ok([&[],&[]])
         } else if head_index < published_tail_index {
@@ -224,12 +226,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     }
 
     /// tells if the element at `head` was -- or is being -- overwritten
-    fn is_lost(&self, head: u32) -> bool {
-        self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32
+    fn is_lost(&self, head: u64) -> bool {
+        self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u64
     }
 
     /// renders this consumer unusable: any further operations will yield an error, on any thread
-    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+    fn overflow_error(&self, published_tail: u64, head: u64) -> RingBufferOverflowError {
         self.overflowed.store(true, Ordering::Relaxed);
         RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
     }
-- 
2.43.0


From d0d98db991281f544f37b76adf772de46486200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 26/28] verification hook: laps of ring buffers, guarded by
 --cfg big_o_verif

---
 src/metrics_allocator/ring_buffer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1552719..79c7f94 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -95,6 +95,14 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         RING_BUFFER_SIZE
     }
 
+    /// Verification hook: leaves a (full) ring buffer as if `laps` more laps of elements, equal to the ones it holds, had been enqueued
+    #[cfg(big_o_verif)]
+    pub fn verif_skip_laps(&self, laps: u64) {
+        let skipped = laps * RING_BUFFER_SIZE as u64;
+        self.reserved_tail.fetch_add(skipped as _, Ordering::Relaxed);
+        self.published_tail.fetch_add(skipped as _, Ordering::Relaxed);
+    }
+
 }
 
 
-- 
2.43.0


From a8177b8efc16d0cb6d856880cc8e1c55f05a0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 27/28] fix: options selected on top of the default ones
 prevail instead of not compiling or being ignored

'tolerance_25_percent' and 'report_stderr' didn't compile along with the default features; 'no_report' didn't stop the reports
---
 src/features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index c4d4cf0..17100ed 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -4,7 +4,7 @@
 use std::io::{stdout,stderr,Write};
 use crate::metrics_allocator::MetricsAllocator;
 
-#[cfg(any(feature = "tolerance_10_percent", not(any(feature = "tolerance_25_percent"))))]
+#[cfg(not(feature = "tolerance_25_percent"))]
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.10;
 
@@ -12,15 +12,15 @@ pub const PERCENT_TOLERANCE: f64 = 0.10;
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.25;
 
-#[cfg(feature = "report_stdout")]
+#[cfg(all(feature = "report_stdout", not(any(feature = "report_stderr", feature = "no_report"))))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stdout_write;
 
-#[cfg(feature = "report_stderr")]
+#[cfg(all(feature = "report_stderr", not(feature = "no_report")))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stderr_write;
 
-#[cfg(not(any(feature = "report_stdout", feature = "report_stderr")))]
+#[cfg(any(feature = "no_report", not(any(feature = "report_stdout", feature = "report_stderr"))))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = null_write;
 
-- 
2.43.0


From e2688fea2ad25e3a46180635cda5e80b0aa9abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 28/28] fix: tests stopped by a space excess tell how many
 retries were really made

---
 src/api/builders/regular_async_builder.rs | 2 +-
 src/runners/standard.rs                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index 9f620c5..1143380 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -72,7 +72,7 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
             ResolvedResult::Fatal { error, .. } => Some(error),
             ResolvedResult::Recovered { .. } => None,
             ResolvedResult::GivenUp { retry_errors, fatal_error, .. } => Some(format!("Given up with '{}' after {max_attempts} attempts. Previous transient errors: {}", fatal_error, loggable_retry_errors(&retry_errors))),
-            ResolvedResult::Unrecoverable { retry_errors, fatal_error, .. } => Some(format!("Stopped after retrying for {max_attempts} attempts due to the fatal outcome '{}'. Previous transient errors: {}", fatal_error, loggable_retry_errors(&retry_errors))),
+            ResolvedResult::Unrecoverable { retry_errors, fatal_error, .. } => Some(format!("Stopped after retrying for {} attempts due to the fatal outcome '{}'. Previous transient errors: {}", retry_errors.len(), fatal_error, loggable_retry_errors(&retry_errors))),
         };
         if let Some(failure_msg) = failure_msg {
             panic!("{}", failure_msg);
diff --git a/src/runners/standard.rs b/src/runners/standard.rs
index 0472056..fadd641 100644
--- a/src/runners/standard.rs
+++ b/src/runners/standard.rs
@@ -46,7 +46,7 @@ pub fn test_algorithm(test_name:                 &str,
         ResolvedResult::Fatal { error, .. } => Some(error),
         ResolvedResult::Recovered { .. } => None,
         ResolvedResult::GivenUp { retry_errors, fatal_error, .. } => Some(format!("Given up with '{}' after {max_retry_attempts} attempts. Previous transient errors: {}", fatal_error, loggable_retry_errors(&retry_errors))),
-        ResolvedResult::Unrecoverable { retry_errors, fatal_error, .. } => Some(format!("Stopped after retrying for {max_retry_attempts} attempts due to the fatal outcome '{}'. Previous transient errors: {}", fatal_error, loggable_retry_errors(&retry_errors))),
+        ResolvedResult::Unrecoverable { retry_errors, fatal_error, .. } => Some(format!("Stopped after retrying for {} attempts due to the fatal outcome '{}'. Previous transient errors: {}", retry_errors.len(), fatal_error, loggable_retry_errors(&retry_errors))),
     };
     if let Some(failure_msg) = failure_msg {
         panic!("{}", failure_msg);
-- 
2.43.0

