From 69983e1d7bf2624adb01fd4ca93f53c8cc13b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 01/62] fix: never start more pool workers than the scheduler
 has queues

num_workers above CLER_DEFAULT_MAX_WORKERS with even more blocks indexed past
the worker queue array.
---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..27db218 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -588,6 +588,8 @@ namespace cler {
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
+                // The scheduler has a fixed number of worker queues
+                num_workers = std::min(num_workers, DEFAULT_MAX_WORKERS);
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
                 // Record start time for all blocks (only if detailed stats enabled)
-- 
2.43.0


From fa37937ba839acf6f4a63dc970623fb07e6c8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 02/62] fix: publish a block's statistics when it ends its run
 with a fatal error

---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 27db218..36b7ead 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -393,7 +393,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // _stop_flag ends the outer loop; stats are still published below
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From e29de8227b6fec925bef48da23d5189455b84bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 03/62] fix: join the tasks already started when a later task
 cannot be created

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 36b7ead..708d49a 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -438,10 +438,11 @@ namespace cler {
         void launch_tasks_impl(std::index_sequence<Is...>, const FlowGraphConfig& config) {
             // C++17 fold expression: validates all indices are within bounds at compile time
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
+            // Count each task as it is created: if a creation throws, stop() still joins the earlier ones
+            _active_task_count = 0;
             ((_tasks[Is] = TaskPolicy::create_task([this, config]() {
                 run_block_at_index_thread_per_block<Is>(config);
-            })), ...);
-            _active_task_count = _N;  // ThreadPerBlock creates one task per block
+            }), ++_active_task_count), ...);
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From faa1dadf3c1fc71acca8897f4a77d43ea2917122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 04/62] fix: count each run's statistics from zero

The pool scheduler kept adding to the counters of earlier runs.
---
 include/cler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 708d49a..7ce82ed 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -449,6 +449,14 @@ namespace cler {
         void init_stats_impl(std::index_sequence<Is...>) {
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
             ((_stats[Is].name = std::get<Is>(_runners).block->name()), ...);
+            // Every run is counted from zero
+            for (auto& s : _stats) {
+                s.successful_procedures = 0;
+                s.failed_procedures = 0;
+                s.total_dead_time_s = 0.0;
+                s.total_runtime_s = 0.0;
+                s.final_adaptive_sleep_us = 0.0;
+            }
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From c8ebc6e7ee4542bd5450600640c46fcbe795c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 05/62] fix: measure run_for and block statistics with a
 monotonic clock

high_resolution_clock is the wall clock on libstdc++: adjusting it shortened,
lengthened or hung run_for and produced negative run times.
---
 include/cler.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 7ce82ed..019f8f1 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -254,7 +254,7 @@ namespace cler {
         template<typename Rep, typename Period>
         void run_for(const std::chrono::duration<Rep, Period>& duration, const FlowGraphConfig& config = FlowGraphConfig{}) {
             // Start the flowgraph
-            auto start_time = std::chrono::high_resolution_clock::now();
+            auto start_time = std::chrono::steady_clock::now();
             run(config);
             
             // For longer durations, use sleep_us to avoid busy waiting
@@ -268,7 +268,7 @@ namespace cler {
             }
             
             // Use relax for the remaining time for precise timing
-            while (std::chrono::high_resolution_clock::now() - start_time < duration) {
+            while (std::chrono::steady_clock::now() - start_time < duration) {
                 TaskPolicy::relax();
             }
             
@@ -358,12 +358,12 @@ namespace cler {
             }
 
             // Only declare timing variables if needed
-            std::chrono::high_resolution_clock::time_point t_start, t_last;
+            std::chrono::steady_clock::time_point t_start, t_last;
             size_t successful = 0, failed = 0;
             double total_dead_time_s = 0.0;
 
             if (config.collect_detailed_stats) {
-                t_start = t_last = std::chrono::high_resolution_clock::now();
+                t_start = t_last = std::chrono::steady_clock::now();
             }
 
             while (!_stop_flag) {
@@ -373,7 +373,7 @@ namespace cler {
                 for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
                     std::chrono::duration<double> dt{};
                     if (config.collect_detailed_stats) {
-                        auto t_now = std::chrono::high_resolution_clock::now();
+                        auto t_now = std::chrono::steady_clock::now();
                         dt = t_now - t_last;
                         t_last = t_now;
                     }
@@ -422,7 +422,7 @@ namespace cler {
             }
 
             if (config.collect_detailed_stats) {
-                auto t_end = std::chrono::high_resolution_clock::now();
+                auto t_end = std::chrono::steady_clock::now();
                 std::chrono::duration<double> total_runtime_s = t_end - t_start;
 
                 stats.successful_procedures = successful;
@@ -481,7 +481,7 @@ namespace cler {
         std::array<BlockExecutionStats, _N> _stats;
         OnErrTerminateCallback _on_err_terminate_cb = nullptr;
         void* _on_err_terminate_context = nullptr;
-        std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
+        std::array<std::chrono::steady_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
         // Initialize block stats with names (only if detailed stats enabled)
@@ -493,8 +493,8 @@ namespace cler {
         
         // Helper for conditional timing
         auto get_time_if_needed(bool collect_stats) {
-            return collect_stats ? std::chrono::high_resolution_clock::now() : 
-                                 std::chrono::high_resolution_clock::time_point{};
+            return collect_stats ? std::chrono::steady_clock::now() : 
+                                 std::chrono::steady_clock::time_point{};
         }
         
         
@@ -603,7 +603,7 @@ namespace cler {
                 
                 // Record start time for all blocks (only if detailed stats enabled)
                 if (config.collect_detailed_stats) {
-                    auto start_time = std::chrono::high_resolution_clock::now();
+                    auto start_time = std::chrono::steady_clock::now();
                     for (size_t i = 0; i < _N; ++i) {
                         _block_start_times[i] = start_time;
                     }
@@ -642,7 +642,7 @@ namespace cler {
                     
                     // Update dead time if block failed to process
                     if (!block_did_work && config.collect_detailed_stats) {
-                        auto t_after = std::chrono::high_resolution_clock::now();
+                        auto t_after = std::chrono::steady_clock::now();
                         std::chrono::duration<double> dt = t_after - t_before;
                         _stats[block_idx].total_dead_time_s += dt.count();
                     }
@@ -658,7 +658,7 @@ namespace cler {
             
             // Finalize stats when worker exits (only if detailed stats enabled)
             if (config.collect_detailed_stats) {
-                auto end_time = std::chrono::high_resolution_clock::now();
+                auto end_time = std::chrono::steady_clock::now();
                 // IMPORTANT: In this scheduler each block is executed only by its owning worker.
                 // Stats writes are safe because there's no work-stealing or migration.
                 // If work-stealing is added later, _stats writes must be made thread-safe or owner-only.
-- 
2.43.0


From 08c88ecee2060bd23e25a6247d6a6278a4b1dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 06/62] fix: let the first adaptive sleep respect
 adaptive_sleep_max_us

---
 include/cler.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 019f8f1..41fe590 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -313,10 +313,11 @@ namespace cler {
                     double current_sleep = stats.current_adaptive_sleep_us.load();
                     
                     if (current_sleep == 0.0) {
-                        // Start sleeping with 1 microsecond
+                        // Start sleeping with 1 microsecond (or the maximum, if that is shorter)
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        const double initial_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(initial_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(initial_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From b9c34b56d27f9503d1883c58ffa2214761f09428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 07/62] fix: let a successful call end the starvation count
 before the same batch starves

The count was reset only after the batch, so a block that succeeded and then ran
out of input in one batch slept as if it had been starved all along.
---
 include/cler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 41fe590..aa172eb 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -412,14 +412,14 @@ namespace cler {
                         if (config.collect_detailed_stats) {
                             successful++;
                         }
+                        if (!did_work_in_batch) {
+                            // Before a later starved call of this batch is counted
+                            handle_adaptive_sleep(I, true);
+                        }
                         did_work_in_batch = true;
                         // Keep looping up to max_calls_per_tick
                     }
                 }
-                
-                if (did_work_in_batch) {
-                    handle_adaptive_sleep(I, true);
-                }
             }
 
             if (config.collect_detailed_stats) {
@@ -718,15 +718,15 @@ namespace cler {
                     if (config.collect_detailed_stats) {
                         stats.successful_procedures++;
                     }
+                    if (!did_work) {
+                        // Before a later starved call of this batch is counted
+                        handle_adaptive_sleep(I, true);
+                    }
                     did_work = true;
                     // Keep looping up to max_calls_per_tick
                 }
             }
             
-            if (did_work) {
-                handle_adaptive_sleep(I, true);
-            }
-            
             return did_work;
         }
         
-- 
2.43.0


From 48b674f2f79dc202d27e7a9920117676829da794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 08/62] fix: keep ThreadX control blocks at the address they
 were created at

create_task() returned the TX_THREAD and TX_SEMAPHORE by value: the kernel kept
pointers into the dead local wrapper and join_task() waited on a copy.
---
 .../task_policies/cler_threadx_tpolicy.hpp    | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..8e41d06 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -28,17 +28,18 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     using TaskPolicyBase<ThreadXTaskPolicy>::pin_to_core;
     
     // Structure to hold task data
+    // The kernel knows its control blocks by address, so they live here and not in the
+    // wrapper, which is copied around
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
         volatile bool task_completed;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
         UCHAR* stack_memory;
         volatile bool task_completed;
@@ -72,33 +73,36 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
             return wrapper; // Failed allocation
         }
         
+        // Allocate task data
+        using FuncType = typename std::decay<Func>::type;
+        auto* task_data = new TaskData;
+        task_data->callable = new FuncType(std::forward<Func>(f));
+        task_data->invoke = &TaskHelper<FuncType>::invoke;
+        task_data->destroy = &TaskHelper<FuncType>::destroy;
+        task_data->task_completed = false;
+        
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
+            task_data->destroy(task_data->callable);
+            delete task_data;
             delete[] wrapper.stack_memory;
+            wrapper.stack_memory = nullptr;
             return wrapper;
         }
         
-        // Allocate task data
-        using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
-        task_data->callable = new FuncType(std::forward<Func>(f));
-        task_data->invoke = &TaskHelper<FuncType>::invoke;
-        task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
-        task_data->task_completed = false;
         wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
@@ -111,10 +115,11 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
             delete task_data;
             delete[] wrapper.stack_memory;
+            wrapper.stack_memory = nullptr;
             wrapper.task_data = nullptr;
             return wrapper;
         }
@@ -126,12 +131,12 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
@@ -168,7 +173,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
-- 
2.43.0


From 5f190c6afbb2e781c1dff302c461b907cb4f1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 09/62] fix: keep Zephyr thread and semaphore objects at the
 address they were created at

create_task() returned them by value inside the wrapper, so the kernel kept
pointers into a dead local and join_task() waited on a copy.
---
 include/task_policies/cler_zephyr_tpolicy.hpp | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..6fecde8 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -19,18 +19,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     using TaskPolicyBase<ZephyrTaskPolicy>::relax;
     using TaskPolicyBase<ZephyrTaskPolicy>::pin_to_core;
     
+    // The kernel knows thread and semaphore by address, so they live here and not in the
+    // wrapper, which is copied around
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
+        struct k_thread thread_data;
+        struct k_sem completion_sem;
     };
 
     struct TaskWrapper {
-        struct k_thread thread_data;
-        k_thread_stack_t* stack_mem;
-        struct k_sem completion_sem;
-        TaskData* task_data;
+        k_thread_stack_t* stack_mem = nullptr;
+        TaskData* task_data = nullptr;
         bool task_completed = false;
     };
 
@@ -54,19 +55,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
         wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
         if (!wrapper.stack_mem) return wrapper;
 
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
         auto* task_data = new TaskData{
             new FuncType(std::forward<Func>(f)),
             &TaskHelper<FuncType>::invoke,
             &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
+            {},
+            {}
         };
+        k_sem_init(&task_data->completion_sem, 0, 1);
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
+        k_thread_create(&task_data->thread_data,
                         wrapper.stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
@@ -79,7 +80,7 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
             delete wrapper.task_data;
@@ -101,7 +102,7 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
+            k_sem_give(&data->completion_sem);
         }
     }
 };
-- 
2.43.0


From 470c9737747a92c4dc684b91f9738a25bbf12f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 10/62] fix: yield after a starved call when adaptive sleep is
 off

On a kernel without time slices (ThreadX here) a starved block of a flowgraph
spun forever and the block it waited for never ran.
---
 include/cler.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index aa172eb..06e6b98 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -295,7 +295,11 @@ namespace cler {
     private:
         // Block-centric adaptive sleep logic (works with all schedulers)
         void handle_adaptive_sleep(size_t block_idx, bool procedure_succeeded) {
-            if (!_config.adaptive_sleep) return;
+            if (!_config.adaptive_sleep) {
+                // A starved block waits for another one: let it run, also where nothing preempts us
+                if (!procedure_succeeded) TaskPolicy::yield();
+                return;
+            }
             
             auto& stats = _stats[block_idx];
             
-- 
2.43.0


From 774e2f4ae420e550da5f5ad4ff080b306f9dae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 11/62] fix: probe for doubly mapped buffers once, also with
 concurrent first callers

A second thread could see tested == true before the probe had finished and
got a heap channel (and the two flags were a data race).
---
 include/cler_platform.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..1641f6f 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -129,11 +129,9 @@ namespace cler {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
+                // Initialised once, also when several threads create their first channel together
+                static const bool result = [] {
+                bool supported = false;
                 
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
@@ -208,6 +206,8 @@ namespace cler {
                 #endif
                 
                 return supported;
+                }();
+                return result;
             #endif
         }
 
-- 
2.43.0


From b75505ba0fb3d3d4a6cc934ee624869ebca84a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 12/62] fix: end doubly mapped rings at a page boundary for
 every element size

With an element size that does not divide the page size the ring ended short of
the mapping, and windows across the end read and wrote misplaced bytes.
---
 include/cler_spsc-queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..778ee15 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -19,6 +19,7 @@
 #include <limits>      // for numeric_limits
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
+#include <numeric>     // for std::gcd
 #include <type_traits> // for std::is_default_constructible
 #include <utility>     // for forward
 #include <cstring>     // for std::memcpy
@@ -96,8 +97,10 @@ public:
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
-            return aligned_bytes / sizeof(T);  // Return page-aligned capacity
+            // The ring must end exactly at a page boundary or the second mapping does not continue it:
+            // round up to a whole number of elements that is also a whole number of pages
+            const std::size_t granularity = page_size / std::gcd(page_size, sizeof(T));
+            return ((requested_capacity + granularity - 1) / granularity) * granularity;
           }
           return requested_capacity;  // Return regular capacity
         }()),
-- 
2.43.0


From 81a49fefd7f525b07dc175b860d21fabcded5f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 13/62] fix: do not round a doubly mapped ring up to huge pages

The queue wraps at the size it asked for; with a larger mapping the window
across the end of the ring did not continue at its start.
---
 include/virtual_memory/cler_vmem_posix.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..74652db 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,7 +80,7 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
@@ -88,9 +88,8 @@ public:
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
         if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
-            use_huge_pages = true;
+            // Only for whole huge pages: the caller's ring must end where the second mapping begins
+            use_huge_pages = (aligned_size % huge_page_size == 0);
         }
         #endif
         
-- 
2.43.0


From 50cc7ebb41ab8ce3bddda9e5b01f4a6e79b3a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 14/62] fix: reject queue capacities whose size in bytes
 overflows

---
 include/cler_spsc-queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 778ee15..1572ead 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -89,6 +89,10 @@ public:
   explicit AdaptiveHeapBuffer(const std::size_t capacity,
                              const Allocator &allocator = Allocator())
       : capacity_([&]() -> std::size_t {
+          // A size in bytes that overflows std::size_t must fail, not give a smaller queue
+          if (capacity > std::allocator_traits<Allocator>::max_size(allocator) / 2) {
+            throw std::bad_array_new_length();
+          }
           // +1 prevents live lock e.g. reader and writer share 1 slot for size 1
           const std::size_t requested_capacity = capacity + 1;
           const std::size_t buffer_bytes = requested_capacity * sizeof(T);
-- 
2.43.0


From 90f855f91c3a52fa5f932f615ec01f0a67c60bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 15/62] fix: free a channel's memory and elements when
 constructing an element throws

---
 include/cler_spsc-queue.hpp | 40 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 1572ead..31318fb 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -84,6 +84,32 @@ struct AdaptiveHeapBuffer {
 private:
   cler::vmem::DoublyMappedAllocation vmem_allocation_;
   T* raw_allocation_ = nullptr;  // For standard allocation cleanup
+
+  // Undoes a construction that an element's constructor (or the allocator) interrupts with an exception
+  struct ConstructionGuard {
+    AdaptiveHeapBuffer* self;
+    T* first = nullptr;
+    std::size_t constructed = 0;
+    std::size_t allocated = 0;  // 0: memory belongs to vmem_allocation_
+
+    void construct_all(std::size_t count) {
+      if constexpr (!std::is_trivially_constructible_v<T>) {
+        for (; constructed < count; ++constructed) {
+          std::allocator_traits<Allocator>::construct(self->allocator_, first + constructed);
+        }
+      }
+      self = nullptr;
+    }
+    ~ConstructionGuard() {
+      if (!self) return;
+      while (constructed > 0) {
+        std::allocator_traits<Allocator>::destroy(self->allocator_, first + --constructed);
+      }
+      if (allocated) {
+        std::allocator_traits<Allocator>::deallocate(self->allocator_, first, allocated);
+      }
+    }
+  };
   
 public:
   explicit AdaptiveHeapBuffer(const std::size_t capacity,
@@ -127,11 +153,8 @@ public:
           is_doubly_mapped_ = true;
           
           // Initialize ALL elements up to capacity_
-          if constexpr (!std::is_trivially_constructible_v<T>) {
-            for (std::size_t i = 0; i < capacity_; ++i) {
-              std::allocator_traits<Allocator>::construct(allocator_, buffer_ + i);
-            }
-          }
+          ConstructionGuard guard{this, buffer_};
+          guard.construct_all(capacity_);
           return; // Success!
         }
       }
@@ -142,11 +165,8 @@ public:
     raw_allocation_ = std::allocator_traits<Allocator>::allocate(allocator_, total_size);
     
     // Initialize all elements including padding
-    if constexpr (!std::is_trivially_constructible_v<T>) {
-      for (std::size_t i = 0; i < total_size; ++i) {
-        std::allocator_traits<Allocator>::construct(allocator_, raw_allocation_ + i);
-      }
-    }
+    ConstructionGuard guard{this, raw_allocation_, 0, total_size};
+    guard.construct_all(total_size);
     
     // Adjust buffer to skip initial padding
     buffer_ = raw_allocation_ + padding;
-- 
2.43.0


From 26db3f414f2ae7cebb5d5bb871961e8fd6d5569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 16/62] fix: keep resampled output that does not fit into the
 channel

The number of outputs was estimated from the ratio; what did not fit into the
output channel was dropped, and the output buffer was smaller than liquid asks
for. An output channel smaller than the ratio never saw progress.
---
 .../resamplers/multistage_resampler.hpp       | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..6494114 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -55,8 +55,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             throw std::bad_alloc();
         }
         
-        // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        // Allocate output buffer (sized for maximum expansion case, as liquid documents it: 1 + 2 * ratio * inputs)
+        size_t output_buffer_size = static_cast<size_t>(2.0f * _buffer_size * _ratio + 100); // Extra space for safety
         _output_buffer = new T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
@@ -88,6 +88,19 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out)
     {
         // Use readN/writeN for simple processing (recommended pattern)
+        // First deliver what did not fit into the output the last time
+        if (_pending_count > 0) {
+            size_t written = out->writeN(_output_buffer + _pending_pos, _pending_count);
+            _pending_pos += written;
+            _pending_count -= written;
+            if (written == 0) {
+                return cler::Error::NotEnoughSpace;
+            }
+            if (_pending_count > 0) {
+                return cler::Empty{};
+            }
+        }
+
         size_t available_input = in.size();
         size_t available_output = out->space();
         
@@ -102,7 +115,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // Calculate max input samples we can process given output space and buffer size
         // For downsample (ratio < 1), we need more input samples than output space
         // For upsample (ratio > 1), we need fewer input samples than output space
-        size_t max_input_by_output = static_cast<size_t>(available_output / _ratio);
+        // The resampler may produce a few more than ratio * inputs: those wait in _output_buffer
+        size_t max_input_by_output = std::max<size_t>(1, static_cast<size_t>(available_output / _ratio));
         size_t max_input = std::min({available_input, max_input_by_output, _buffer_size});
         
         // Read input samples
@@ -129,7 +143,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         }
         
         // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        _pending_pos = out->writeN(_output_buffer, n_resampled);
+        _pending_count = n_resampled - _pending_pos;
 
         return cler::Empty{};
     }
@@ -138,6 +153,8 @@ private:
     float _ratio;
     size_t _buffer_size;
     size_t _output_buffer_size;
+    size_t _pending_pos = 0;    // output that did not fit into the channel yet
+    size_t _pending_count = 0;
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
-- 
2.43.0


From dd53e483bcd823ed60a97bf292daa5e42ed929e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 17/62] fix: throttle on a monotonic clock

high_resolution_clock is the wall clock in libstdc++: setting the clock back
made the throttle sleep for that long.
---
 desktop_blocks/utils/throttle.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/utils/throttle.hpp b/desktop_blocks/utils/throttle.hpp
index 9ce7ba9..321e049 100644
--- a/desktop_blocks/utils/throttle.hpp
+++ b/desktop_blocks/utils/throttle.hpp
@@ -11,7 +11,7 @@ struct ThrottleBlock : public cler::BlockBase {
           in(buffer_size),
           _sps(sps),
           _interval(1.0 / static_cast<double>(sps)),
-          _next_tick(std::chrono::high_resolution_clock::now())
+          _next_tick(std::chrono::steady_clock::now())
     {
         if (_sps == 0) {
             throw std::invalid_argument("Sample rate must be greater than zero.");
@@ -34,10 +34,10 @@ struct ThrottleBlock : public cler::BlockBase {
         out->push(sample);
 
         // Compute target time for the next sample
-        _next_tick += std::chrono::duration_cast<std::chrono::high_resolution_clock::duration>(
+        _next_tick += std::chrono::duration_cast<std::chrono::steady_clock::duration>(
             std::chrono::duration<double>(_interval));
 
-        auto now = std::chrono::high_resolution_clock::now();
+        auto now = std::chrono::steady_clock::now();
         if (now < _next_tick) {
             auto sleep_duration = _next_tick - now;
             std::this_thread::sleep_for(sleep_duration);
@@ -52,5 +52,5 @@ struct ThrottleBlock : public cler::BlockBase {
 private:
     size_t _sps;
     double _interval;  // interval between samples in seconds
-    std::chrono::high_resolution_clock::time_point _next_tick;
+    std::chrono::steady_clock::time_point _next_tick;
 };
-- 
2.43.0


From 88e633141044feef0ff6b4ef811fe0fa31bef60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 18/62] fix: end a file sink at its first failed write

Samples already written stayed unconsumed and were written again when the graph
ran again, and what stdio had buffered was dropped, so that later writes left a
gap in the file.
---
 desktop_blocks/sinks/sink_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sinks/sink_file.hpp b/desktop_blocks/sinks/sink_file.hpp
index 09c4e21..ca2f87f 100644
--- a/desktop_blocks/sinks/sink_file.hpp
+++ b/desktop_blocks/sinks/sink_file.hpp
@@ -55,8 +55,13 @@ struct SinkFileBlock : public cler::BlockBase {
         if (span_size > 0) {
             // Single write, no copy
             size_t written = std::fwrite(span_ptr, sizeof(T), span_size, _fp);
-            if (written != span_size) return cler::Error::TERM_IOError;
             in.commit_read(written);
+            if (written != span_size) {
+                // stdio drops what it had buffered: writing on after this would leave a gap in the file
+                std::fclose(_fp);
+                _fp = nullptr;
+                return cler::Error::TERM_IOError;
+            }
         }
         return cler::Empty{};
     }
-- 
2.43.0


From 7ddc44b010a90f9af8a2a665607ad33fa92009b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 19/62] fix: let any thread release a slab slot

---
 desktop_blocks/blob.cpp | 4 +++-
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..e573481 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,7 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    std::lock_guard<std::mutex> lock(_release_mutex);
+    [[maybe_unused]] const bool pushed = _free_slots.try_push(slot_idx);
+    assert(pushed && "BUG: more slots released than taken");
 }
\ No newline at end of file
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..97bcb6b 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex; // slots are taken by one thread, but any thread holding a blob may release it
 };
\ No newline at end of file
-- 
2.43.0


From 20f902256ff4278db7cfc92731c0661b3554621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 20/62] fix: keep unsent elements in the channel when a
 datagram send fails

---
 desktop_blocks/udp/sink_udp.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..610bf21 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -33,24 +33,24 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             return cler::Empty{};
         }
 
-        T buffer[available];
-        in.readN(buffer, available);
-
+        // One at a time: what has not been sent when a send fails stays in the channel
         for (size_t i = 0; i < available; ++i) {
+            T element;
+            in.pop(element);
             ssize_t bytes;
 
             if constexpr (IS_BLOB) {
                 // Blob-specific: send blob data and release slot
-                bytes = _socket.send(buffer[i].data, buffer[i].len);
+                bytes = _socket.send(element.data, element.len);
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(element, _callback_context);
                 }
-                buffer[i].release();
+                element.release();
             } else {
                 // Generic fixed-size
-                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&buffer[i]), sizeof(T));
+                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&element), sizeof(T));
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(element, _callback_context);
                 }
             }
 
-- 
2.43.0


From e219d50d6278e1f9d8e03ce082d7bb4f78bc0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 21/62] fix: hand on received datagrams when a later receive
 ends the batch

---
 desktop_blocks/udp/source_udp.hpp | 55 ++++++++++++++++---------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..a0a6a5f 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -40,6 +40,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 
         T buffer[available];
         size_t count = 0;
+        bool failed = false;
 
         for (size_t i = 0; i < available; ++i) {
             if constexpr (IS_BLOB) {
@@ -50,30 +51,11 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 Blob blob = result.unwrap();
                 ssize_t bytes = _socket.recv(blob.data, blob.len);
 
-                if (bytes == 0) {
+                if (bytes <= 0) {
                     blob.release();
-                    return cler::Empty{};
-                }
-
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
-                        case EAGAIN:
-#if EAGAIN != EWOULDBLOCK
-                        case EWOULDBLOCK:
-#endif
-                        case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
-                        case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
-
-                        default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
-                    }
+                    if (skips_datagram(bytes)) continue;
+                    failed = is_fatal(bytes);
+                    break;
                 }
 
                 blob.len = static_cast<size_t>(bytes);
@@ -90,29 +72,48 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
-                if (bytes <= 0) break;
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                if (bytes <= 0) {
+                    if (skips_datagram(bytes)) continue;
+                    failed = is_fatal(bytes);
+                    break;
+                }
+
+                if (_validate && !_validate(buffer[count], _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(buffer[count], _callback_context);
                 }
 
                 count++;
             }
         }
 
+        // Whatever ended the batch, what was received before is handed on
         if (count > 0) {
             out->writeN(buffer, count);
         }
 
+        if (failed) {
+            return cler::Error::TERM_IOError;
+        }
         return cler::Empty{};
     }
 
 private:
+    // Empty or truncated: that datagram is dropped, the next ones are not affected
+    static bool skips_datagram(ssize_t bytes) {
+        return bytes == 0 || bytes == -EMSGSIZE;
+    }
+
+    // Neither a timeout nor an interruption
+    static bool is_fatal(ssize_t bytes) {
+        return bytes != -EAGAIN && bytes != -EWOULDBLOCK && bytes != -EINTR;
+    }
+
     UDPBlock::GenericDatagramSocket _socket;
     Slab _slab;  // Only used when IS_BLOB == true
     ValidateCallback _validate = nullptr;
-- 
2.43.0


From 0d2f101864632c14ef438552b33e265add0c7af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 22/62] fix: do not wait for further datagrams while holding
 received ones, nor past a stop

---
 desktop_blocks/udp/shared.hpp     |  1 +
 desktop_blocks/udp/source_udp.hpp | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/udp/shared.hpp b/desktop_blocks/udp/shared.hpp
index 522ea32..f5a5cd6 100644
--- a/desktop_blocks/udp/shared.hpp
+++ b/desktop_blocks/udp/shared.hpp
@@ -3,6 +3,7 @@
 #include <stdexcept>
 #include <cstring>
 #include <cerrno>
+#include <chrono>
 
 #include <sys/socket.h>
 #include <arpa/inet.h>
diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index a0a6a5f..a51adea 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -26,7 +26,10 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
           _validate(validate),
           _validate_context(callback_context),
           _callback(callback),
-          _callback_context(callback_context) {}
+          _callback_context(callback_context)
+    {
+        _socket.set_receive_timeout(RECEIVE_TIMEOUT);
+    }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
         if (!_socket.is_valid()) {
@@ -43,13 +46,17 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
         bool failed = false;
 
         for (size_t i = 0; i < available; ++i) {
+            // Wait for the first datagram only (bounded by the receive timeout), so that the
+            // ones already here are handed on, and a stop is noticed, without further traffic
+            const int flags = (i == 0) ? 0 : MSG_DONTWAIT;
+
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
                 auto result = _slab.take_slot();
                 if (result.is_err()) break;
 
                 Blob blob = result.unwrap();
-                ssize_t bytes = _socket.recv(blob.data, blob.len);
+                ssize_t bytes = _socket.recv(blob.data, blob.len, flags);
 
                 if (bytes <= 0) {
                     blob.release();
@@ -72,7 +79,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T), flags);
 
                 if (bytes <= 0) {
                     if (skips_datagram(bytes)) continue;
@@ -104,6 +111,8 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
     }
 
 private:
+    static constexpr std::chrono::milliseconds RECEIVE_TIMEOUT{100};
+
     // Empty or truncated: that datagram is dropped, the next ones are not affected
     static bool skips_datagram(ssize_t bytes) {
         return bytes == 0 || bytes == -EMSGSIZE;
-- 
2.43.0


From d28318092ebb7909e0c5b4f55e18d7d0cc5ae590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 23/62] fix: read the logger's started flag under its lock

---
 desktop_logger/desktop_logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index 23ad671..b422ac1 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -92,9 +92,10 @@ namespace cler {
 
 logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
     if (!log_filepath) return cler::LOGGER_FILEPATH_EMPTY;
-    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
 
     std::lock_guard<std::mutex> lock(log_mutex);
+    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
+
     _unguarded_close_log_file();
 
     _log_filepath = log_filepath;
-- 
2.43.0


From 974c25ca96e014b5a40bb553de29c0f9240cb907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 24/62] fix: start a new line after a log write that failed

---
 desktop_logger/desktop_logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index b422ac1..c20f6a9 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -13,6 +13,7 @@
 // No filesystem needed - using C functions for C++11 compatibility
 
 static FILE* _log_file = nullptr;
+static bool _line_torn = false;  // the last write failed: the file may end inside a line
 static bool _logger_started = false;
 static std::mutex log_mutex;
 static std::string _log_filepath;
@@ -184,10 +185,11 @@ static void zf_output_callback(const zf_log_message *msg, void *arg) {
             check_and_rotate_if_needed();
             
             if (_log_file) {  // Re-check after potential rotation
-                fprintf(_log_file, "[%s] [%s] %.*s\n",
-                    time_str, lvl_char,
+                // Keep this message out of a line cut short by a failed write
+                const int written = fprintf(_log_file, "%s[%s] [%s] %.*s\n",
+                    _line_torn ? "\n" : "", time_str, lvl_char,
                     (int)(msg->p - msg->msg_b), msg->msg_b);
-                fflush(_log_file);
+                _line_torn = (fflush(_log_file) != 0) || (written < 0);
             }
         }
     }
-- 
2.43.0


From 41e74f2607d4174c6fec613aabd2d002e4dcdb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 25/62] fix: survive running out of memory while rotating or
 switching log files

---
 desktop_logger/desktop_logger.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index c20f6a9..c28090d 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -6,7 +6,9 @@
 #include <ctime>
 #include <cstring>
 #include <mutex>
+#include <new>
 #include <string>
+#include <vector>
 #include <atomic>
 #include <fcntl.h>
 #include <unistd.h>
@@ -28,26 +30,29 @@ static void _unguarded_close_log_file() noexcept {
 }
 
 // Rotate log files: log.txt -> log.1.txt, log.1.txt -> log.2.txt, etc.
-static void rotate_log_files() noexcept {
+static void rotate_log_files() {
     if (_log_filepath.empty() || !_log_file) return;
+
+    // Build all names first: running out of memory must not leave the files half rotated
+    std::vector<std::string> names{_log_filepath};
+    for (int i = 1; i <= _rotation_config.max_backup_files; ++i) {
+        names.push_back(_log_filepath + "." + std::to_string(i));
+    }
     
     // Close current file
     fclose(_log_file);
     _log_file = nullptr;
     
     // Delete the oldest backup if it exists
-    std::string oldest = _log_filepath + "." + std::to_string(_rotation_config.max_backup_files);
-    std::remove(oldest.c_str());  // Ignore error
+    std::remove(names.back().c_str());  // Ignore error
     
     // Rotate existing backups
     for (int i = _rotation_config.max_backup_files - 1; i > 0; --i) {
-        std::string old_name = _log_filepath + "." + std::to_string(i);
-        std::string new_name = _log_filepath + "." + std::to_string(i + 1);
-        std::rename(old_name.c_str(), new_name.c_str());  // Ignore error
+        std::rename(names[i].c_str(), names[i + 1].c_str());  // Ignore error
     }
     
     // Rename current log to .1
-    std::rename(_log_filepath.c_str(), (_log_filepath + ".1").c_str());
+    std::rename(names[0].c_str(), names[1].c_str());
     // If rename fails, the file stays as is - that's OK
     
     // Always try to open a new log file (or reopen existing if rename failed)
@@ -99,7 +104,12 @@ logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
 
     _unguarded_close_log_file();
 
-    _log_filepath = log_filepath;
+    try {
+        _log_filepath = log_filepath;
+    } catch (const std::bad_alloc&) {
+        _log_filepath.clear();
+        return cler::LOGGER_COULD_NOT_OPEN_FILE;
+    }
     _log_file = fopen(log_filepath, "a");
     if (!_log_file) {
         _log_filepath.clear();
-- 
2.43.0


From 28e5149547ce9e530cbe7b8c416569246eb19bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 26/62] fix: do not overwrite a log backup that could not be
 renamed

---
 desktop_logger/desktop_logger.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index c28090d..f37ca3d 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -1,6 +1,7 @@
 #include "desktop_logger.hpp"
 #include "zf_log.h"
 
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
@@ -47,12 +48,19 @@ static void rotate_log_files() {
     std::remove(names.back().c_str());  // Ignore error
     
     // Rotate existing backups
+    bool can_shift = true;
     for (int i = _rotation_config.max_backup_files - 1; i > 0; --i) {
-        std::rename(names[i].c_str(), names[i + 1].c_str());  // Ignore error
+        if (std::rename(names[i].c_str(), names[i + 1].c_str()) != 0 && errno != ENOENT) {
+            // This backup stays where it is, so nothing newer may be renamed over it
+            can_shift = false;
+            break;
+        }
     }
     
     // Rename current log to .1
-    std::rename(names[0].c_str(), names[1].c_str());
+    if (can_shift) {
+        std::rename(names[0].c_str(), names[1].c_str());
+    }
     // If rename fails, the file stays as is - that's OK
     
     // Always try to open a new log file (or reopen existing if rename failed)
-- 
2.43.0


From 3dfacc2f6fa8eb062b11ef6fc897ef282880ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 27/62] fix: receive all channels of a USRP in one call and see
 errors without samples

---
 desktop_blocks/sources/source_uhd.hpp | 61 ++++++++++++---------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 7ef4278..99ac7a8 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -14,6 +14,8 @@
     #endif
 #endif
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <string>
 #include <iostream>
@@ -132,44 +134,34 @@ struct SourceUHDBlock : public cler::BlockBase {
             return cler::Empty{};  // Skip this iteration
         }
 
+        // The streamer fills all of its channels in one call: as many samples as fit into each of them
+        size_t space = std::numeric_limits<size_t>::max();
+        _buffs.clear();
+        ([&](OChannels* out) {
+            auto [write_ptr, write_size] = out->write_dbf();
+            _buffs.push_back(write_ptr);
+            space = std::min(space, write_ptr ? write_size : 0);
+        }(outs), ...);
+        if (space == 0) {
+            return cler::Error::NotEnoughSpace;
+        }
+
         uhd::rx_metadata_t md;
-        cler::Error result_error = cler::Error::OK;
-        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-            ([&](OChannels* out) {
-
-                if (result_error != cler::Error::OK) {
-                    return;
-                }
-                auto [write_ptr, write_size] = out->write_dbf();
-                if (!write_ptr || write_size == 0) {
-                    result_error = cler::Error::NotEnoughSpace;
-                    return;
-                }
-                size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (num_rx == 0) {
-                    return;
-                }
-                if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
-                    overflow_count++;
-                } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-                            md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
-                    std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
-                    result_error = cler::Error::TERM_ProcedureError;
-                    return;
-                }
-
-                out->commit_write(num_rx);
-            }(outs), ...);
-        }(std::make_index_sequence<num_outs>{});
-
-
-
-        if (result_error != cler::Error::OK) {
-            return result_error;
+        size_t num_rx = rx_stream->recv(_buffs, space, md, 0.1);
+        if (num_rx > 0) {
+            (outs->commit_write(num_rx), ...);
         }
-        return cler::Empty{};
 
+        // Most error codes come without samples
+        if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
+            overflow_count++;
+        } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
+                    md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
+            std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
+            return cler::Error::TERM_ProcedureError;
+        }
 
+        return cler::Empty{};
     }
     size_t get_overflow_count() const { return overflow_count; }
 
@@ -185,6 +177,7 @@ private:
     size_t _num_channels;
     std::string wire_format;
     std::atomic<bool> _configuring;
+    std::vector<void*> _buffs;  // Temp storage for write_dbf pointers
     size_t overflow_count = 0;
 };
 
-- 
2.43.0


From 96316809d63e252f7ab472965a563b3fe473a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 28/62] fix: do not read a USRP sink's configuration through a
 null pointer

---
 desktop_blocks/sinks/sink_uhd.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 028d846..39baa42 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -101,10 +101,6 @@ struct SinkUHDBlock : public cler::BlockBase {
                 throw std::runtime_error("SinkUHDBlock: Failed to setup TX stream");
             }
 
-            for (size_t channel = 0; channel < _num_channels; ++channel) {
-                configure(*initial_config, channel);
-            }
-
             // Allocate UHD buffer pointer array (vector auto-manages)
             _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-- 
2.43.0


From 41c7d3674259bb77f89716e4835ce02ced702d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 29/62] fix: send all channels of a USRP in one call and
 consume each of them

---
 desktop_blocks/sinks/sink_uhd.hpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 39baa42..9bdba43 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -15,6 +15,8 @@
 #endif
 #include <complex>
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <string>
 #include <iostream>
@@ -102,11 +104,7 @@ struct SinkUHDBlock : public cler::BlockBase {
             }
 
             // Allocate UHD buffer pointer array (vector auto-manages)
-            _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-            _read_sizes.resize(_num_channels);
-
-
 
             UHDConfig config_to_use;
             if (initial_config) {
@@ -195,24 +193,28 @@ struct SinkUHDBlock : public cler::BlockBase {
         if (_configuring.load(std::memory_order_acquire)) {
             return cler::Empty{};  // Skip this iteration
         }
+        // The streamer sends all of its channels in one call: as many samples as each of them has
+        size_t to_send = std::numeric_limits<size_t>::max();
         for (size_t i = 0; i < _num_channels; ++i) {
             auto [ptr, size] = in[i].read_dbf();
             _read_ptrs[i] = ptr;
-            _read_sizes[i] = size;
+            to_send = std::min(to_send, size);
+        }
+        if (to_send < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
+            return cler::Error::NotEnoughSamples;
+        }
 
-            if (_read_sizes[i] < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
-                return cler::Error::NotEnoughSamples;
-            }
-            uhd::tx_metadata_t md;
-            md.start_of_burst = false;
-            md.end_of_burst = false;
-            md.has_time_spec = false;               
-
-            size_t sent = _tx_stream->send(_read_ptrs[i],
-                            _read_sizes[i],
-                            md,
-                            0.1);  // 100ms timeout
-            in->commit_read(sent);
+        uhd::tx_metadata_t md;
+        md.start_of_burst = false;
+        md.end_of_burst = false;
+        md.has_time_spec = false;
+
+        size_t sent = _tx_stream->send(_read_ptrs,
+                        to_send,
+                        md,
+                        0.1);  // 100ms timeout
+        for (size_t i = 0; i < _num_channels; ++i) {
+            in[i].commit_read(sent);
         }
 
         handle_async_events();
@@ -303,9 +305,7 @@ private:
     std::atomic<bool> _configuring;
 
     // Multi-channel support
-    std::vector<void*> _uhd_buffs;  // Buffer pointers for UHD multi-channel send()
-    std::vector<const T*> _read_ptrs;  // Temp storage for read_dbf pointers
-    std::vector<size_t> _read_sizes;   // Temp storage for read_dbf sizes
+    std::vector<const void*> _read_ptrs;  // Buffer pointers for UHD multi-channel send()
 
     // Statistics
     size_t underflow_count = 0;
-- 
2.43.0


From 0f255eaab82e02427e99a421a3c5e9fc07f06f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 30/62] fix: close a SoapySDR device whose setup throws

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 19 +++++++++++++------
 desktop_blocks/sources/source_soapysdr.hpp | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 2ea09b3..e64cdcd 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -69,6 +69,17 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             throw std::runtime_error("SinkSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
         
+        // Whatever throws below, the device does not stay open
+        struct Cleanup {
+            SoapySDR::Device* device;
+            SoapySDR::Stream*& stream;
+            ~Cleanup() {
+                if (!device) return;
+                if (stream) device->closeStream(stream);
+                SoapySDR::Device::unmake(device);
+            }
+        } cleanup{device, stream};
+        
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_TX, channel_idx);
         bool rate_valid = false;
@@ -84,7 +95,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_TX, channel_idx, sample_rate);
@@ -104,7 +114,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_TX, channel_idx, center_freq);
@@ -115,7 +124,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_TX, channel_idx)) {
@@ -134,7 +142,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_TX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to setup TX stream");
         }
         
@@ -145,8 +152,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
@@ -167,6 +172,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             }
             std::cout << std::endl;
         }
+
+        cleanup.device = nullptr;
     }
     
     ~SinkSoapySDRBlock() {
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 9617328..f79d6df 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -59,6 +59,17 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             throw std::runtime_error("SourceSoapySDRBlock: Failed to create SoapySDR device with args: " + device_args);
         }
         
+        // Whatever throws below, the device does not stay open
+        struct Cleanup {
+            SoapySDR::Device* device;
+            SoapySDR::Stream*& stream;
+            ~Cleanup() {
+                if (!device) return;
+                if (stream) device->closeStream(stream);
+                SoapySDR::Device::unmake(device);
+            }
+        } cleanup{device, stream};
+        
         // Validate and set sample rate
         auto sample_rates = device->getSampleRateRange(SOAPY_SDR_RX, channel_idx);
         bool rate_valid = false;
@@ -74,7 +85,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_RX, channel_idx, sample_rate);
@@ -94,7 +104,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_RX, channel_idx, center_freq);
@@ -105,7 +114,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_RX, channel_idx)) {
@@ -124,7 +132,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_RX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to setup RX stream");
         }
         
@@ -134,8 +141,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
@@ -156,6 +161,8 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             }
             std::cout << std::endl;
         }
+
+        cleanup.device = nullptr;
     }
     
     ~SourceSoapySDRBlock() {
-- 
2.43.0


From a2398b02156ab77d877242f8723ec640d8cb49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 31/62] fix: let a USRP block's counters be read while the
 graph runs

---
 desktop_blocks/sinks/sink_uhd.hpp     | 3 ++-
 desktop_blocks/sources/source_uhd.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 9bdba43..ea726f7 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -16,6 +16,7 @@
 #include <complex>
 
 #include <algorithm>
+#include <atomic>
 #include <limits>
 #include <vector>
 #include <string>
@@ -308,7 +309,7 @@ private:
     std::vector<const void*> _read_ptrs;  // Buffer pointers for UHD multi-channel send()
 
     // Statistics
-    size_t underflow_count = 0;
+    std::atomic<size_t> underflow_count{0};  // read while the graph runs
 };
 
 // UHD operates on I/Q pairs - scalar types are not supported
diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 99ac7a8..e5e87cf 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -15,6 +15,7 @@
 #endif
 
 #include <algorithm>
+#include <atomic>
 #include <limits>
 #include <vector>
 #include <string>
@@ -178,7 +179,7 @@ private:
     std::string wire_format;
     std::atomic<bool> _configuring;
     std::vector<void*> _buffs;  // Temp storage for write_dbf pointers
-    size_t overflow_count = 0;
+    std::atomic<size_t> overflow_count{0};  // read while the graph runs
 };
 
 using SourceUHDBlockCF32 = SourceUHDBlock<std::complex<float>>;
-- 
2.43.0


From 79192ab8c4c60e2486f6f1a0d7931c6358413de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 32/62] fix: guard the aircraft states the GUI thread draws and
 queries

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..5bcb9e9 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -5,6 +5,7 @@
 #include "adsb_coastline_loader.hpp"
 #include "modes.h"
 #include "cpr.h"
+#include <mutex>
 #include <unordered_map>
 #include <imgui.h>
 #include <cmath>
@@ -45,6 +46,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         for (size_t i = 0; i < to_process; ++i) {
             const mode_s_msg& msg = _msg_buffer[i];
 
+            // The GUI thread draws and queries the aircraft states
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
+
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
             ADSBState& state = _aircraft[icao];
@@ -142,7 +146,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Fire callback if state changed
             if (state_changed && _callback) {
-                _callback(state, _callback_context);
+                const ADSBState snapshot = state;
+                lock.unlock(); // the callback may query this block
+                _callback(snapshot, _callback_context);
             }
         }
 
@@ -150,6 +156,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -159,6 +166,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -196,7 +204,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -235,6 +243,7 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
     std::unordered_map<uint32_t, ADSBState> _aircraft;
+    mutable std::mutex _aircraft_mutex;
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
 
@@ -328,6 +337,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
-- 
2.43.0


From 398df46c5b640b7b40f9a92c3413ec53bc7714b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 33/62] fix: compute the plots' spectra out of place: not every
 FFT of liquid works in place

---
 desktop_blocks/plots/plot_cspectrogram.cpp |  8 +++++---
 desktop_blocks/plots/plot_cspectrogram.hpp |  1 +
 desktop_blocks/plots/plot_cspectrum.cpp    | 10 ++++++----
 desktop_blocks/plots/plot_cspectrum.hpp    |  1 +
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index 11515e0..b0ca02f 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -49,6 +49,7 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
 
     _liquid_inout = new std::complex<float>[_n_fft_samples];
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples]; // not every fft works in place
     _tmp_mag_buffer = new float[_n_fft_samples];
 
     _spectrograms = new float*[_num_inputs];
@@ -64,7 +65,7 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
 
     _fftplan = fft_create_plan(_n_fft_samples,
         reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -77,6 +78,7 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
 
     delete[] _liquid_inout;
     delete[] _tmp_y_buffer;
+    delete[] _liquid_out;
     delete[] _tmp_mag_buffer;
 
     for (size_t i = 0; i < _num_inputs; ++i) {
@@ -130,8 +132,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         float scale2 = scale * scale;
 
         for (size_t j = 0; j < _n_fft_samples; ++j) {
-            float re = _liquid_inout[j].real();
-            float im = _liquid_inout[j].imag();
+            float re = _liquid_out[j].real();
+            float im = _liquid_out[j].imag();
             float power = (re * re + im * im) / scale2;
             _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
         }
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index b54dece..00997c3 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -36,6 +36,7 @@ private:
     SpectralWindow _window_type;
 
     std::complex<float>* _liquid_inout;
+    std::complex<float>* _liquid_out;
     std::complex<float>* _tmp_y_buffer;
     float* _tmp_mag_buffer;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..68c14de 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -74,6 +74,7 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _liquid_inout = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples]; // not every fft works in place
     _freq_bins = new float[_n_fft_samples];
     for (size_t i = 0; i < _n_fft_samples; ++i) {
         _freq_bins[i] = (_sps * (static_cast<float>(i) / static_cast<float>(_n_fft_samples)))
@@ -89,7 +90,7 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _fftplan = fft_create_plan(_n_fft_samples,
         reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -110,6 +111,7 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
     delete[] _tmp_buffer;
     delete[] _liquid_inout;
     delete[] _tmp_mag_buffer;
+    delete[] _liquid_out;
     delete[] _freq_bins;
     
     // Cleanup averaged spectrum buffers
@@ -242,14 +244,14 @@ void PlotCSpectrumBlock::render() {
             coherent_gain /= static_cast<float>(_n_fft_samples);
 
             fft_execute(_fftplan);
-            fft_shift(_liquid_inout, _n_fft_samples);
+            fft_shift(_liquid_out, _n_fft_samples);
 
             float scale = static_cast<float>(_n_fft_samples) * coherent_gain;
             float scale2 = scale * scale;
 
             for (size_t j = 0; j < _n_fft_samples; ++j) {
-                float re = _liquid_inout[j].real();
-                float im = _liquid_inout[j].imag();
+                float re = _liquid_out[j].real();
+                float im = _liquid_out[j].imag();
                 float power = (re * re + im * im) / scale2;
                 _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
             }
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index dbe72a4..2ea3558 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -41,6 +41,7 @@ private:
     std::complex<float>* _tmp_buffer = nullptr;
 
     std::complex<float>* _liquid_inout = nullptr;
+    std::complex<float>* _liquid_out = nullptr;
     float* _freq_bins = nullptr;
     float* _tmp_mag_buffer = nullptr;
     float** _spectrum_avg = nullptr;  // Averaged spectrum for each input
-- 
2.43.0


From 02d7d3d684b37faa246a3127a94dd7841dc7a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 34/62] fix: plots: read each input's size once, keep within
 the plot's ring and lock it against render()

---
 desktop_blocks/plots/plot_cspectrogram.cpp |  3 ++-
 desktop_blocks/plots/plot_cspectrum.cpp    | 10 +++++++---
 desktop_blocks/plots/plot_timeseries.cpp   | 10 +++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index b0ca02f..d8344f5 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -1,5 +1,6 @@
 #include "plot_cspectrogram.hpp"
 #include "implot.h"
+#include <algorithm>
 #include <cstring>
 
 PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
@@ -97,7 +98,7 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
 
     size_t available = in[0].size();
     for (size_t i = 1; i < _num_inputs; ++i) {
-        if (in[i].size() < available) available = in[i].size();
+        available = std::min(available, in[i].size());
     }
     if (available < _n_fft_samples) {
         return cler::Error::NotEnoughSamples;
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 68c14de..a03d72c 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -1,6 +1,7 @@
 #include "plot_cspectrum.hpp"
 #include "implot.h"
 
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 #include <cassert>
@@ -132,13 +133,16 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
 
     size_t work_size = in[0].size();
     for (size_t i = 1; i < _num_inputs; ++i) {
-        if (in[i].size() < work_size) {
-            work_size = in[i].size();
-        }
+        work_size = std::min(work_size, in[i].size());
     }
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // the input channels may hold more than the plot keeps
+    work_size = std::min(work_size, _buffer_size);
+
+    // render() takes its snapshot of the ring buffers from the GUI thread
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
 
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..1d90d54 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -1,5 +1,6 @@
 #include "plot_timeseries.hpp"
 #include "implot.h"
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 
@@ -84,13 +85,16 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
 
     size_t work_size = in[0].size();
     for (size_t i = 1; i < _num_inputs; ++i) {
-        if (in[i].size() < work_size) {
-            work_size = in[i].size();
-        }
+        work_size = std::min(work_size, in[i].size());
     }
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // the input channels may hold more than the plot keeps
+    work_size = std::min(work_size, _buffer_size);
+
+    // render() takes its snapshot of the ring buffers from the GUI thread
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
 
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
-- 
2.43.0


From 8110d83413b0f64f3fcf65c86560fca60576053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 35/62] fix: ADS-B decoder: lose no message at the end of a
 call's samples or for want of space, start messages from zero, make the
 filter atomic

---
 desktop_blocks/adsb/adsb_decoder.hpp | 58 ++++++++++++++--------------
 desktop_blocks/adsb/modes.c          |  9 ++++-
 desktop_blocks/adsb/modes.h          |  7 +++-
 desktop_blocks/adsb/modes_2400.c     |  6 ++-
 desktop_blocks/adsb/modes_2400.h     |  6 ++-
 5 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..f259015 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -5,6 +5,7 @@
 #include "desktop_blocks/adsb/modes_2400.h"
 #include <cstring>
 #include <algorithm>
+#include <atomic>
 
 struct ADSBDecoderBlock : public cler::BlockBase {
     cler::Channel<uint16_t> in;
@@ -26,7 +27,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         _df_filter(df_filter),
         _tmp_buffer(new uint16_t[BUFFER_ELEMENTS]) {
         // Validate filter: 0 is ambiguous, must use 0xFFFFFFFFU for "allow all messages"
-        assert(_df_filter != 0 && "df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
+        assert(df_filter != 0 && "df_filter=0 is invalid. Use 0xFFFFFFFFU to allow all message types.");
         mode_s_init(&_decoder_state);
     }
 
@@ -37,20 +38,18 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
-        // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
-        // (preamble + longest message at 2 samples per bit)
-        constexpr size_t MODES_LONG_MSG_SAMPLES = 240;  // 16 preamble + 112*2 bits
-        if (read_size < MODES_LONG_MSG_SAMPLES) {
+        // Mode S detection scans the positions that have a whole message (preamble +
+        // longest message) behind them. It starts after the context: the last sample
+        // scanned by the previous call, kept because detection looks back at it.
+        const size_t msg_samples = (_mode == SampleRateMode::RATE_2MHZ)
+            ? MODE_S_FULL_SAMPLES : MODE_S_FULL_SAMPLES_2400;
+        if (read_size <= _context + msg_samples) {
             return cler::Error::NotEnoughSamples;
         }
 
-        size_t write_space = out->space();
-        if (write_space == 0) {
+        if (out->space() == 0) {
             return cler::Error::NotEnoughSpace;
         }
 
@@ -58,33 +57,40 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         size_t to_process = std::min(read_size, BUFFER_ELEMENTS);
 
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
-        in.commit_read(to_process);
-
-        total_samples += to_process;
-        call_count++;
 
         CallbackContext ctx;
         ctx.out_channel = out;
-        ctx.df_filter = _df_filter;
-
-        if (_mode == SampleRateMode::RATE_2MHZ) {
-            mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
-        } else {
-            mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+        ctx.df_filter = _df_filter.load(std::memory_order_relaxed);
+
+        // Any position may have a message: scan only as many as there is space for
+        size_t next = _context;
+        size_t write_space;
+        while (next + msg_samples < to_process && (write_space = out->space()) > 0) {
+            size_t scan_end = std::min(to_process, next + msg_samples + write_space);
+            if (_mode == SampleRateMode::RATE_2MHZ) {
+                next = mode_s_detect(&_decoder_state, _tmp_buffer, scan_end, next, on_message_detected, &ctx);
+            } else {
+                next = mode_s_detect_2400(&_decoder_state, _tmp_buffer, scan_end, next, on_message_detected, &ctx);
+            }
         }
 
+        // The positions not scanned yet may start a message that ends in the next samples
+        in.commit_read(next - 1);
+        _context = 1;
+
         return cler::Empty{};
     }
 
     // Set or change DF filter (thread-safe with atomic)
     void set_df_filter(uint32_t df_filter) {
-        _df_filter = df_filter;
+        _df_filter.store(df_filter, std::memory_order_relaxed);
     }
 
 private:
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
+    size_t _context = 0;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
@@ -94,14 +100,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..d85b873 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -564,6 +564,9 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
+	// Not every message carries every field
+	memset(mm, 0, sizeof(*mm));
+
 	// Work on our local copy
 	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
 	msg = mm->msg;
@@ -827,7 +830,7 @@ void apply_phase_correction(uint16_t *mag)
 // Detect a Mode S messages inside the magnitude buffer pointed by 'mag' and of
 // size 'maglen' bytes. Every detected Mode S message is convert it into a
 // stream of bits and passed to the function to display it.
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, uint32_t first, mode_s_callback_t cb, void *cb_context)
 {
 	//printf("[MODES] Starting Mode S message detection on %u samples\n", maglen);
 	unsigned char bits[MODE_S_LONG_MSG_BITS];
@@ -859,7 +862,7 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 8   --
 	// 9   -------------------
 
-	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
+	for (j = first; j + MODE_S_FULL_SAMPLES < maglen; j++)
 	{
 		int low, high, delta, i, errors;
 		int good_message = 0;
@@ -1050,4 +1053,6 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 		}
         
 	}
+
+	return j;
 }
diff --git a/desktop_blocks/adsb/modes.h b/desktop_blocks/adsb/modes.h
index 606c5b3..2f6c9a0 100644
--- a/desktop_blocks/adsb/modes.h
+++ b/desktop_blocks/adsb/modes.h
@@ -21,6 +21,7 @@ extern "C" {
 
 #define MODE_S_ICAO_CACHE_LEN 1024 // Power of two required
 #define MODE_S_LONG_MSG_BYTES (112/8)
+#define MODE_S_FULL_SAMPLES 240 // Samples mode_s_detect() looks at from a position on
 #define MODE_S_UNIT_FEET 0
 #define MODE_S_UNIT_METERS 1
 
@@ -85,7 +86,11 @@ struct mode_s_msg
 typedef void (*mode_s_callback_t)(mode_s_t *self, struct mode_s_msg *mm, void *context);
 
 void mode_s_init(mode_s_t *self);
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
+// Scans the positions of 'mag' from 'first' on that have a whole message behind
+// them, and returns the first position it did not scan: continue from there once
+// more samples have arrived. The sample before 'first' must be in the buffer too
+// (except at the start of the stream).
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, uint32_t first, mode_s_callback_t cb, void *context);
 void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg);
 void mode_s_display_message(struct mode_s_msg *mm);
 
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..7308136 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -20,7 +20,7 @@ static inline int slice_phase4(uint16_t *m) {
     return m[0] + 5 * m[1] - 5 * m[2] - m[3];
 }
 
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, uint32_t first, mode_s_callback_t cb, void *cb_context) {
     uint32_t j;
     unsigned char msg1[14], msg2[14], *msg;
     unsigned char *bestmsg;
@@ -28,7 +28,7 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
-    for (j = 0; j < maglen - 300; j++) {
+    for (j = first; j + MODE_S_FULL_SAMPLES_2400 < maglen; j++) {
         uint16_t *preamble = &mag[j];
         int high;
         uint32_t base_signal, base_noise;
@@ -211,4 +211,6 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             }
         }
     }
+
+    return j;
 }
diff --git a/desktop_blocks/adsb/modes_2400.h b/desktop_blocks/adsb/modes_2400.h
index 00925ea..67f6f3d 100644
--- a/desktop_blocks/adsb/modes_2400.h
+++ b/desktop_blocks/adsb/modes_2400.h
@@ -8,8 +8,10 @@ extern "C" {
 #endif
 
 // 2.4 MSPS Mode S detector
-// Uses the same callback interface as modes.h but with 2.4MHz sampling
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
+#define MODE_S_FULL_SAMPLES_2400 300 // Samples mode_s_detect_2400() looks at from a position on
+
+// Uses the same interface as modes.h but with 2.4MHz sampling
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, uint32_t first, mode_s_callback_t cb, void *cb_context);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From c26196d9a8f9092475968bf0d28075502b32905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 36/62] fix: GMSK modulator compared the free samples with the
 frame's length in bytes

---
 desktop_blocks/ezgmsk/ezgmsk_mod.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
index bf79ef2..65f8802 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
@@ -44,6 +44,10 @@ struct EZGmskModBlock : public cler::BlockBase {
         size_t size1, size2;
         size_t available = in.peek_read(ptr1, size1, ptr2, size2);
         
+        if (available == 0) {
+            return cler::Error::NotEnoughSamples;
+        }
+
         for (size_t i = 0; i < available; ++i) {
             Blob* blob = const_cast<Blob*>(
                 (i < size1) ? (ptr1 + i) : (ptr2 + i - size1)
@@ -53,7 +57,10 @@ struct EZGmskModBlock : public cler::BlockBase {
             unsigned int frame_len = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
             auto [write_ptr, write_space] = out->write_dbf();
 
-            if (write_space < frame_len * sizeof(liquid_float_complex)) {
+            if (write_space < frame_len) {
+                if (i == 0) {
+                    return cler::Error::NotEnoughSpace;
+                }
                 break;
             }
 
-- 
2.43.0


From d17767ba0a8223c1b02a0e63b0513f74e3eb9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 37/62] fix: do not report a read error as the end of a source
 file

---
 desktop_blocks/sources/source_file.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/desktop_blocks/sources/source_file.hpp b/desktop_blocks/sources/source_file.hpp
index d3b2a99..2e3f906 100644
--- a/desktop_blocks/sources/source_file.hpp
+++ b/desktop_blocks/sources/source_file.hpp
@@ -43,6 +43,10 @@ struct SourceFileBlock : public cler::BlockBase {
         size_t samples_read = _file.gcount() / sizeof(T);
         
         if (samples_read == 0) {
+            if (_file.bad()) {
+                // A read error is not the end of the file
+                return cler::Error::TERM_IOError;
+            }
             if (_file.eof() && _repeat) {
                 _file.clear(); // Clear EOF flag
                 _file.seekg(0, std::ios::beg);
-- 
2.43.0


From 2f28840be2aec7a146143776a939be5fdd9272cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 38/62] fix: lose no samples of an audio file, end it once,
 fail where it cannot repeat

---
 desktop_blocks/sources/source_audio_file.hpp | 136 +++++++++++--------
 1 file changed, 80 insertions(+), 56 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2b8cb72..6792359 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
 #include "cler.hpp"
+#include <algorithm>
 #include <stdexcept>
 #include <string>
 #include <cstring>
+#include <vector>
 
 #ifdef __has_include
     #if __has_include(<libavformat/avformat.h>)
@@ -73,63 +75,26 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         }
 
         size_t samples_written = 0;
-        int ret = 0;
-
-        while (samples_written < write_size) {
-            ret = av_read_frame(_format_ctx, &_packet);
-
-            if (ret == AVERROR_EOF) {
-                if (_repeat) {
-                    // Seek to beginning and retry
-                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
-                    avcodec_flush_buffers(_codec_ctx);
-                    continue;
-                } else {
-                    _eof_reached = true;
-                    if (_callback) {
-                        _callback(_filename);
-                    }
-                    break;
-                }
-            } else if (ret < 0) {
-                return cler::Error::TERM_IOError;
-            }
-
-            if (_packet.stream_index != _audio_stream_idx) {
-                av_packet_unref(&_packet);
+        bool rewound = false;
+
+        // Once per call at most: a file may hold no samples at all
+        while (samples_written < write_size && !rewound) {
+            if (_converted_pos < _converted.size()) {
+                size_t n = std::min(write_size - samples_written, _converted.size() - _converted_pos);
+                std::memcpy(write_ptr + samples_written, _converted.data() + _converted_pos, n * sizeof(T));
+                samples_written += n;
+                _converted_pos += n;
                 continue;
             }
-
-            ret = avcodec_send_packet(_codec_ctx, &_packet);
-            av_packet_unref(&_packet);
-
-            if (ret < 0) {
-                return cler::Error::TERM_IOError;
+            if (_eof_reached) {
+                break;
             }
-
-            while (avcodec_receive_frame(_codec_ctx, _frame) == 0) {
-                // Resample to desired format and sample rate
-                // Prepare output buffer pointer (advance by already-written samples)
-                uint8_t* out_buf = reinterpret_cast<uint8_t*>(write_ptr) + samples_written * sizeof(T);
-                uint8_t* out_bufs[] = {out_buf};
-
-                int frame_count = swr_convert(
-                    _resampler,
-                    out_bufs,
-                    write_size - samples_written,
-                    (const uint8_t**)_frame->data,
-                    _frame->nb_samples
-                );
-
-                if (frame_count < 0) {
-                    return cler::Error::TERM_IOError;
-                }
-
-                samples_written += frame_count;
-
-                if (samples_written >= write_size) {
-                    break;
+            if (_decode(rewound) < 0) {
+                // What was decoded before the error is good
+                if (samples_written > 0) {
+                    out->commit_write(samples_written);
                 }
+                return cler::Error::TERM_IOError;
             }
         }
 
@@ -137,8 +102,11 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             out->commit_write(samples_written);
         }
 
-        if (_eof_reached && samples_written == 0) {
-            return cler::Empty{};
+        if (_eof_reached && !_eof_reported && _converted_pos == _converted.size()) {
+            _eof_reported = true;
+            if (_callback) {
+                _callback(_filename);
+            }
         }
 
         return cler::Empty{};
@@ -155,7 +123,63 @@ private:
     AVFrame* _frame;
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
-    bool _eof_reached;
+    bool _eof_reached;             // Nothing left to decode or convert
+    bool _eof_reported = false;
+    std::vector<T> _converted;     // Samples of the last frame, handed on from _converted_pos on
+    size_t _converted_pos = 0;
+
+    // One step towards the next samples: take a frame out of the decoder or feed it a packet.
+    // A negative value is an error.
+    int _decode(bool& rewound) {
+        int ret = avcodec_receive_frame(_codec_ctx, _frame);
+        if (ret == 0) {
+            return _convert((const uint8_t**)_frame->data, _frame->nb_samples);
+        }
+
+        if (ret == AVERROR_EOF) {
+            // The decoder has given its last frame
+            if (_repeat) {
+                avcodec_flush_buffers(_codec_ctx);
+                rewound = true;
+                return av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+            }
+            ret = _convert(nullptr, 0);
+            _eof_reached = (ret == 0);
+            return ret;
+        }
+
+        ret = av_read_frame(_format_ctx, &_packet);
+        if (ret == AVERROR_EOF) {
+            return avcodec_send_packet(_codec_ctx, nullptr);
+        }
+        if (ret < 0) {
+            return ret;
+        }
+
+        if (_packet.stream_index == _audio_stream_idx) {
+            ret = avcodec_send_packet(_codec_ctx, &_packet);
+        }
+        av_packet_unref(&_packet);
+        return ret;
+    }
+
+    // Resample to the desired format and rate (no input: what the resampler still holds).
+    // Returns the number of samples or a negative error.
+    int _convert(const uint8_t** data, int count) {
+        _converted.clear();
+        _converted_pos = 0;
+
+        int room = swr_get_out_samples(_resampler, count);
+        if (room < 0) {
+            return room;
+        }
+        _converted.resize(room);
+
+        uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(_converted.data())};
+        int samples = swr_convert(_resampler, out_bufs, room, data, count);
+        _converted.resize(std::max(samples, 0));
+        return samples;
+    }
 
     void _open_audio_file() {
         // Open input file
-- 
2.43.0


From 48626acd419985a2e152b7ac230876e0c1ebb1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 39/62] fix: close an audio file whose constructor fails

---
 desktop_blocks/sources/source_audio_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 6792359..bd5de23 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -57,7 +57,12 @@ struct SourceAudioFileBlock : public cler::BlockBase {
           _audio_stream_idx(-1),
           _eof_reached(false)
     {
-        _open_audio_file();
+        try {
+            _open_audio_file();
+        } catch (...) {
+            _close_audio_file();
+            throw;
+        }
     }
 
     ~SourceAudioFileBlock() {
-- 
2.43.0


From e2d20d30f9eed78a99fe8cb761806f88670751d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 40/62] fix: coastline loader: check every read and every count
 against the record before using it

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 58 +++++++++++++++----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index 9a397a8..57e4ffb 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -5,6 +5,7 @@
 #include <cstring>
 #include <fstream>
 #include <cmath>
+#include <utility>
 
 /**
  * Simple shapefile (.shp) parser for Natural Earth coastlines
@@ -28,6 +29,9 @@ struct CoastlineData {
         // Read file size
         file.seekg(0, std::ios::end);
         std::streamsize file_size = file.tellg();
+        if (file_size < 0) {
+            return false;
+        }
         file.seekg(0, std::ios::beg);
 
         // Read shapefile header (100 bytes)
@@ -46,23 +50,27 @@ struct CoastlineData {
             file.seekg(offset, std::ios::beg);
 
             // Record header (8 bytes)
-            uint32_t record_num_be, record_len_be;
+            uint32_t record_num_be = 0, record_len_be = 0;
             file.read(reinterpret_cast<char*>(&record_num_be), 4);
             file.read(reinterpret_cast<char*>(&record_len_be), 4);
+            if (!file) break;  // Unreadable: keep the records read so far
 
             // Convert from big-endian (shapefile uses big-endian)
-            uint32_t record_len = swap_endian(record_len_be) * 2;  // Length in 16-bit words, convert to bytes
+            size_t record_len = static_cast<size_t>(swap_endian(record_len_be)) * 2;  // Length in 16-bit words, convert to bytes
 
             if (offset + 8 + record_len > static_cast<size_t>(file_size)) break;
 
             // Read shape type (4 bytes, little-endian)
-            uint32_t shape_type_le;
-            file.read(reinterpret_cast<char*>(&shape_type_le), 4);
+            uint32_t shape_type_le = 0;
+            if (record_len >= 4) {
+                file.read(reinterpret_cast<char*>(&shape_type_le), 4);
+                if (!file) break;
+            }
             uint32_t shape_type = shape_type_le;  // Already little-endian in file for shape data
 
             // Type 3 = PolyLine
-            if (shape_type == 3) {
-                parse_polyline(file, record_len);
+            if (shape_type == 3 && !parse_polyline(file, record_len)) {
+                break;
             }
 
             offset += 8 + record_len;
@@ -101,7 +109,8 @@ private:
                ((val & 0xFF00000000000000ULL) >> 56);
     }
 
-    void parse_polyline(std::ifstream& file, uint32_t record_len) {
+    // Returns false if the file cannot be read any further; a record that contradicts itself is skipped
+    bool parse_polyline(std::ifstream& file, size_t record_len) {
         // After shape type (4 bytes already read)
 
         // Bounding box (32 bytes: xmin, ymin, xmax, ymax as doubles)
@@ -112,20 +121,38 @@ private:
         file.read(reinterpret_cast<char*>(&ymax), 8);
 
         // Number of parts and points
-        uint32_t num_parts, num_points;
+        uint32_t num_parts = 0, num_points = 0;
         file.read(reinterpret_cast<char*>(&num_parts), 4);
         file.read(reinterpret_cast<char*>(&num_points), 4);
+        if (!file) {
+            return false;
+        }
 
         if (num_parts == 0 || num_points == 0) {
             // Skip to next record
-            return;
+            return true;
+        }
+
+        // The parts and points must lie within the record
+        if (uint64_t{4 + 32 + 8} + uint64_t{num_parts} * 4 + uint64_t{num_points} * 16 > record_len) {
+            return true;
         }
 
         // Read part indices (each part is a uint32)
         std::vector<uint32_t> part_indices(num_parts);
-        file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * 4);
+        file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * size_t{4});
+        if (!file) {
+            return false;
+        }
+        for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
+            uint32_t previous = (part_idx > 0) ? part_indices[part_idx - 1] : 0;
+            if (part_indices[part_idx] < previous || part_indices[part_idx] > num_points) {
+                return true;
+            }
+        }
 
         // Read all points and organize by parts
+        std::vector<std::vector<std::pair<float, float>>> parts;
         for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
             uint32_t start_point = part_indices[part_idx];
             uint32_t end_point = (part_idx + 1 < num_parts) ? part_indices[part_idx + 1] : num_points;
@@ -133,15 +160,22 @@ private:
             std::vector<std::pair<float, float>> polyline;
 
             for (uint32_t i = start_point; i < end_point; ++i) {
-                double lon, lat;
+                double lon = 0.0, lat = 0.0;
                 file.read(reinterpret_cast<char*>(&lon), 8);
                 file.read(reinterpret_cast<char*>(&lat), 8);
+                if (!file) {
+                    return false;
+                }
                 polyline.push_back({static_cast<float>(lat), static_cast<float>(lon)});
             }
 
             if (!polyline.empty()) {
-                polylines.push_back(polyline);
+                parts.push_back(std::move(polyline));
             }
         }
+        for (auto& polyline : parts) {
+            polylines.push_back(std::move(polyline));
+        }
+        return true;
     }
 };
-- 
2.43.0


From 84bbf3360b710fc5df6e1b6b7a59dabb3c05e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 41/62] fix: GUI manager: release everything when the window or
 a backend fails, copy the title

---
 desktop_blocks/gui/gui_manager.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index ee55a24..15e56b2 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -3,10 +3,13 @@
 #include <GLFW/glfw3.h>
 #include "imgui_impl_glfw.h"
 #include "imgui_impl_opengl3.h"
+#include <string>
 
 namespace cler {
 
 GuiManager::GuiManager(int width, int height, const std::string_view title) {
+    const std::string window_title(title); // a string_view need not be NUL-terminated
+
     if (!glfwInit()) {
         throw std::runtime_error("GLFW init failed!");
     }
@@ -16,8 +19,9 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     glfwWindowHint(GLFW_OPENGL_PROFILE, GLFW_OPENGL_CORE_PROFILE);
     glfwWindowHint(GLFW_SAMPLES, 4);
 
-    window = glfwCreateWindow(width, height, title.data(), nullptr, nullptr);
+    window = glfwCreateWindow(width, height, window_title.c_str(), nullptr, nullptr);
     if (!window) {
+        glfwTerminate();
         throw std::runtime_error("Failed to create GLFW window");
     }
     glfwMakeContextCurrent(window);
@@ -29,8 +33,17 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     ImGui::CreateContext();
     ImPlot::CreateContext();
     ImGui::StyleColorsDark();
-    ImGui_ImplGlfw_InitForOpenGL(window, true);
-    ImGui_ImplOpenGL3_Init("#version 330");
+    const bool platform_ready = ImGui_ImplGlfw_InitForOpenGL(window, true);
+    if (!platform_ready || !ImGui_ImplOpenGL3_Init("#version 330")) {
+        if (platform_ready) {
+            ImGui_ImplGlfw_Shutdown();
+        }
+        ImPlot::DestroyContext();
+        ImGui::DestroyContext();
+        glfwDestroyWindow(window);
+        glfwTerminate();
+        throw std::runtime_error("Failed to initialise the GUI backends");
+    }
 
     ImGui::GetStyle().AntiAliasedLines = true;
     ImGui::GetStyle().AntiAliasedLinesUseTex = true; 
-- 
2.43.0


From 9b07f678feebbdff959a0c741b74251ddcd0ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 42/62] fix: throughput meter: measure elapsed time with the
 steady clock

---
 desktop_blocks/utils/throughput.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/utils/throughput.hpp b/desktop_blocks/utils/throughput.hpp
index 61f08ea..7527d09 100644
--- a/desktop_blocks/utils/throughput.hpp
+++ b/desktop_blocks/utils/throughput.hpp
@@ -10,7 +10,7 @@ struct ThroughputBlock : public cler::BlockBase {
     ThroughputBlock(std::string name, size_t buffer_size = 0)
         : cler::BlockBase(std::move(name)),
           in(buffer_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : buffer_size),
-          _start_time(std::chrono::high_resolution_clock::now())
+          _start_time(std::chrono::steady_clock::now())
     {
         // If user provided a non-zero buffer size, validate it's sufficient
         if (buffer_size > 0 && buffer_size * sizeof(T) < cler::DOUBLY_MAPPED_MIN_SIZE) {
@@ -37,7 +37,7 @@ struct ThroughputBlock : public cler::BlockBase {
     }
 
     void report() {
-        auto end_time = std::chrono::high_resolution_clock::now();
+        auto end_time = std::chrono::steady_clock::now();
         std::chrono::duration<double> elapsed = end_time - _start_time;
 
         double seconds = elapsed.count();
@@ -55,5 +55,5 @@ struct ThroughputBlock : public cler::BlockBase {
 
 private:
     size_t _samples_passed = 0;
-    std::chrono::high_resolution_clock::time_point _start_time;
+    std::chrono::steady_clock::time_point _start_time;
 };
-- 
2.43.0


From 778ec3e9b4913d744880bb5075569b26cf0f3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 43/62] fix: diagram tool: comments among BlockRunner arguments
 are not arguments

---
 tools/mermaid/src/cpp_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index a9d61ae..76e0ab4 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -280,7 +280,8 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
         const char* child_type = ts_node_type(child);
         if (strcmp(child_type, ",") != 0 &&
             strcmp(child_type, "(") != 0 &&
-            strcmp(child_type, ")") != 0) {
+            strcmp(child_type, ")") != 0 &&
+            strcmp(child_type, "comment") != 0) {
             std::string arg_text = get_node_text(child);
             if (!arg_text.empty() && arg_text[0] == '&') {
                 arg_text = arg_text.substr(1);
-- 
2.43.0


From ffb7862c926b4e9948ab28027fcaa939897c82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 44/62] fix: diagram tool: report sources that cannot be read
 and diagrams that cannot be written

---
 tools/mermaid/src/main.cpp             | 12 +++++++++---
 tools/mermaid/src/mermaid_renderer.cpp |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 4b1cefd..0094afe 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -38,9 +38,15 @@ std::string read_file(const std::string& filepath) {
     if (!file.is_open()) {
         throw std::runtime_error("Cannot open file: " + filepath);
     }
-    std::stringstream buffer;
-    buffer << file.rdbuf();
-    return buffer.str();
+    std::string content;
+    char chunk[65536];
+    while (file.read(chunk, sizeof(chunk)) || file.gcount() > 0) {
+        content.append(chunk, static_cast<size_t>(file.gcount()));
+    }
+    if (file.bad()) {
+        throw std::runtime_error("Cannot read file: " + filepath);
+    }
+    return content;
 }
 
 int main(int argc, char* argv[]) {
diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 72448c3..96d3d81 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <sstream>
 #include <algorithm>
+#include <stdexcept>
 
 namespace cler {
 
@@ -18,6 +19,10 @@ void MermaidRenderer::render_to_file(const FlowGraph& flowgraph,
     std::string content = generate_mermaid(flowgraph);
     std::ofstream file(output_path + ".md");
     file << content;
+    file.close();
+    if (!file) {
+        throw std::runtime_error("Cannot write file: " + output_path + ".md");
+    }
 }
 
 std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
-- 
2.43.0


From 8f1a4717e62c1d2fe3f04ecd38e58cb2a9f5401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 45/62] fix: diagram tool: strip the extension of sources in
 the current directory, too

---
 tools/mermaid/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 0094afe..c6a94cc 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -139,7 +139,7 @@ int main(int argc, char* argv[]) {
                     base_name = input_file;
                 }
 
-                if (last_dot != std::string::npos && last_dot > last_slash) {
+                if (last_dot != std::string::npos && (last_slash == std::string::npos || last_dot > last_slash)) {
                     base_name = base_name.substr(0, last_dot - (last_slash == std::string::npos ? 0 : last_slash + 1));
                 }
 
-- 
2.43.0


From 7eac939a2f869d8eb008ff1fd18be6ee5fa99154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 46/62] fix: vscode extension: pass file names to the diagram
 tool without a shell

---
 .../mermaid/vscode-extension/src/previewProvider.ts  | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index d49a470..12d3571 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -1,10 +1,10 @@
 import * as vscode from 'vscode';
 import * as path from 'path';
 import * as fs from 'fs';
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { promisify } from 'util';
 
-const execAsync = promisify(exec);
+const execFileAsync = promisify(execFile);
 
 export class PreviewPanel {
     public static currentPreview: { cppFile: string; mdFile: vscode.Uri } | undefined;
@@ -69,10 +69,8 @@ export class PreviewPanel {
         }
 
         try {
-            const { stdout, stderr } = await execAsync(
-                `"${toolPath}" "${filePath}" -o "${outputPath}"`,
-                { timeout: 10000 }
-            );
+            // No shell in between: a file name is only ever an argument
+            await execFileAsync(toolPath, [filePath, '-o', outputPath], { timeout: 10000 });
 
             // Check if output file was created
             const mdPath = `${outputPath}.md`;
@@ -116,7 +114,7 @@ export class PreviewPanel {
 
         // 3. Try in PATH
         try {
-            const { stdout } = await execAsync('which cler-mermaid');
+            const { stdout } = await execFileAsync('which', ['cler-mermaid']);
             const pathInSystem = stdout.trim();
             if (pathInSystem && fs.existsSync(pathInSystem)) {
                 return pathInSystem;
-- 
2.43.0


From 4d7b4423afb15090345812364ba3e494acf9c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 47/62] fix: vscode extension: never show a torn diagram, a
 stale one or one of another file

---
 .../vscode-extension/src/previewProvider.ts        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index 12d3571..5d20d49 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -1,6 +1,7 @@
 import * as vscode from 'vscode';
 import * as path from 'path';
 import * as fs from 'fs';
+import { createHash } from 'crypto';
 import { execFile } from 'child_process';
 import { promisify } from 'util';
 
@@ -59,7 +60,9 @@ export class PreviewPanel {
     private static async generateMermaid(filePath: string): Promise<string> {
         // Find cler-mermaid executable
         const toolPath = await PreviewPanel.findToolPath();
-        const tmpDir = path.join(require('os').tmpdir(), 'cler-preview');
+        // Files of the same name in different directories must not share their diagram
+        const fileId = createHash('sha256').update(filePath).digest('hex').slice(0, 16);
+        const tmpDir = path.join(require('os').tmpdir(), 'cler-preview', fileId);
         const baseName = path.basename(filePath, path.extname(filePath));
         const outputPath = path.join(tmpDir, `${baseName}-flowgraph`);
 
@@ -69,14 +72,19 @@ export class PreviewPanel {
         }
 
         try {
+            // The diagram being shown is only replaced by a complete one of this run
+            const newPath = `${outputPath}.new`;
+            fs.rmSync(`${newPath}.md`, { force: true });
+
             // No shell in between: a file name is only ever an argument
-            await execFileAsync(toolPath, [filePath, '-o', outputPath], { timeout: 10000 });
+            await execFileAsync(toolPath, [filePath, '-o', newPath], { timeout: 10000 });
 
             // Check if output file was created
             const mdPath = `${outputPath}.md`;
-            if (!fs.existsSync(mdPath)) {
+            if (!fs.existsSync(`${newPath}.md`)) {
                 throw new Error(`Output file not created: ${mdPath}`);
             }
+            fs.renameSync(`${newPath}.md`, mdPath);
 
             return mdPath;
 
-- 
2.43.0


From 9888fe0b67562f0d877db9bd6690874920b48ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 48/62] fix: vscode extension: do not lose saves made during a
 run of the tool, show the file asked for last

---
 .../mermaid/vscode-extension/src/extension.ts |  4 +-
 .../vscode-extension/src/previewProvider.ts   | 65 ++++++++++++++-----
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/extension.ts b/tools/mermaid/vscode-extension/src/extension.ts
index 2c490a8..0795bea 100644
--- a/tools/mermaid/vscode-extension/src/extension.ts
+++ b/tools/mermaid/vscode-extension/src/extension.ts
@@ -24,7 +24,7 @@ export function activate(context: vscode.ExtensionContext) {
         const config = vscode.workspace.getConfiguration('cler');
         const autoUpdate = config.get<boolean>('autoUpdate', true);
 
-        if (autoUpdate && doc.languageId === 'cpp' && PreviewPanel.currentPreview) {
+        if (autoUpdate && doc.languageId === 'cpp' && PreviewPanel.isPreviewing(doc.fileName)) {
             PreviewPanel.update(doc);
         }
     });
@@ -35,7 +35,7 @@ export function activate(context: vscode.ExtensionContext) {
         const autoUpdate = config.get<boolean>('autoUpdate', true);
         const delay = config.get<number>('updateDelay', 500);
 
-        if (autoUpdate && event.document.languageId === 'cpp' && PreviewPanel.currentPreview) {
+        if (autoUpdate && event.document.languageId === 'cpp' && PreviewPanel.isPreviewing(event.document.fileName)) {
             if (updateTimer) {
                 clearTimeout(updateTimer);
             }
diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index 5d20d49..b389d1c 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -9,54 +9,89 @@ const execFileAsync = promisify(execFile);
 
 export class PreviewPanel {
     public static currentPreview: { cppFile: string; mdFile: vscode.Uri } | undefined;
-    private static _isUpdating: boolean = false;
+    private static readonly _opening = new Map<number, string>();
+    private static _openRequests: number = 0;
+    private static readonly _running = new Map<string, Promise<string>>();
+    private static readonly _queued = new Map<string, Promise<string>>();
+
+    // True if this file's preview is shown or being opened
+    public static isPreviewing(fileName: string): boolean {
+        return PreviewPanel.currentPreview?.cppFile === fileName
+            || [...PreviewPanel._opening.values()].includes(fileName);
+    }
 
     public static async createOrShow(extensionUri: vscode.Uri, document: vscode.TextDocument) {
+        const request = ++PreviewPanel._openRequests;
+        PreviewPanel._opening.set(request, document.fileName);
+
         try {
             // Generate the Mermaid markdown file
-            const mdFilePath = await PreviewPanel.generateMermaid(document.fileName);
+            const mdFilePath = await PreviewPanel.regenerate(document.fileName);
+            if (request !== PreviewPanel._openRequests) {
+                return; // Another preview was asked for in the meantime
+            }
             const mdFileUri = vscode.Uri.file(mdFilePath);
 
+            // Show markdown preview directly (requires Markdown Preview Mermaid Support extension)
+            await vscode.commands.executeCommand('markdown.showPreview', mdFileUri);
+
             // Store current preview info
             PreviewPanel.currentPreview = {
                 cppFile: document.fileName,
                 mdFile: mdFileUri
             };
 
-            // Show markdown preview directly (requires Markdown Preview Mermaid Support extension)
-            await vscode.commands.executeCommand('markdown.showPreview', mdFileUri);
-
         } catch (error: any) {
             vscode.window.showErrorMessage(`Failed to generate flowgraph: ${error.message}`);
+        } finally {
+            PreviewPanel._opening.delete(request);
         }
     }
 
     public static async update(document: vscode.TextDocument) {
-        if (PreviewPanel._isUpdating) {
-            return; // Prevent concurrent updates
-        }
-
         // Only update if this is the file we're previewing
-        if (!PreviewPanel.currentPreview || PreviewPanel.currentPreview.cppFile !== document.fileName) {
+        if (!PreviewPanel.isPreviewing(document.fileName)) {
             return;
         }
 
-        PreviewPanel._isUpdating = true;
-
         try {
             // Regenerate the Mermaid file
-            const mdFilePath = await PreviewPanel.generateMermaid(document.fileName);
+            await PreviewPanel.regenerate(document.fileName);
 
             // The markdown preview will auto-refresh when the file changes
             // No need to manually trigger refresh
 
         } catch (error: any) {
             console.error('Failed to update preview:', error);
-        } finally {
-            PreviewPanel._isUpdating = false;
         }
     }
 
+    // One run of the tool at a time for each file. What is asked for during a run may not have
+    // been seen by it, so it gets one more run afterwards.
+    private static regenerate(filePath: string): Promise<string> {
+        const queued = PreviewPanel._queued.get(filePath);
+        if (queued) {
+            return queued;
+        }
+
+        const start = () => {
+            PreviewPanel._queued.delete(filePath);
+            const run = PreviewPanel.generateMermaid(filePath).finally(() => {
+                PreviewPanel._running.delete(filePath);
+            });
+            PreviewPanel._running.set(filePath, run);
+            return run;
+        };
+
+        const running = PreviewPanel._running.get(filePath);
+        if (!running) {
+            return start();
+        }
+        const next = running.then(start, start);
+        PreviewPanel._queued.set(filePath, next);
+        return next;
+    }
+
     private static async generateMermaid(filePath: string): Promise<string> {
         // Find cler-mermaid executable
         const toolPath = await PreviewPanel.findToolPath();
-- 
2.43.0


From 3d8f372ac2a1009b3247d19ed00971f5215b4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 49/62] fix: vscode extension: a change in one file does not
 cancel the update of another

---
 .../mermaid/vscode-extension/src/extension.ts | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/extension.ts b/tools/mermaid/vscode-extension/src/extension.ts
index 0795bea..bf951a9 100644
--- a/tools/mermaid/vscode-extension/src/extension.ts
+++ b/tools/mermaid/vscode-extension/src/extension.ts
@@ -1,7 +1,8 @@
 import * as vscode from 'vscode';
 import { PreviewPanel } from './previewProvider';
 
-let updateTimer: NodeJS.Timeout | undefined;
+// Pending updates, one for each document
+const updateTimers = new Map<string, NodeJS.Timeout>();
 
 export function activate(context: vscode.ExtensionContext) {
     console.log('Cler Flowgraph Preview extension activated');
@@ -36,12 +37,15 @@ export function activate(context: vscode.ExtensionContext) {
         const delay = config.get<number>('updateDelay', 500);
 
         if (autoUpdate && event.document.languageId === 'cpp' && PreviewPanel.isPreviewing(event.document.fileName)) {
-            if (updateTimer) {
-                clearTimeout(updateTimer);
+            const fileName = event.document.fileName;
+            const pending = updateTimers.get(fileName);
+            if (pending) {
+                clearTimeout(pending);
             }
-            updateTimer = setTimeout(() => {
+            updateTimers.set(fileName, setTimeout(() => {
+                updateTimers.delete(fileName);
                 PreviewPanel.update(event.document);
-            }, delay);
+            }, delay));
         }
     });
 
@@ -49,7 +53,8 @@ export function activate(context: vscode.ExtensionContext) {
 }
 
 export function deactivate() {
-    if (updateTimer) {
-        clearTimeout(updateTimer);
+    for (const pending of updateTimers.values()) {
+        clearTimeout(pending);
     }
+    updateTimers.clear();
 }
-- 
2.43.0


From fb422a258246a3546975ac0f523b9b0dff9637d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 50/62] fix: audio file source: use the layout of files of more
 than two channels

Interleaved samples of such files were taken for stereo: what was played was neither
the right samples nor the right number of them.
---
 desktop_blocks/sources/source_audio_file.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index bd5de23..9f7c1a2 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -221,17 +221,25 @@ private:
         // FFmpeg version compatibility: handle channel layout API changes
         #if LIBAVCODEC_VERSION_MAJOR >= 59
             // FFmpeg 5.0+ (libavcodec 59+): New AVChannelLayout API
-            int64_t input_ch_layout = _codec_ctx->ch_layout.nb_channels > 1
-                ? AV_CH_LAYOUT_STEREO
-                : AV_CH_LAYOUT_MONO;
+            int64_t input_ch_layout = 0;
+            if (_codec_ctx->ch_layout.order == AV_CHANNEL_ORDER_NATIVE) {
+                input_ch_layout = static_cast<int64_t>(_codec_ctx->ch_layout.u.mask);
+            }
+            if (input_ch_layout == 0) {
+                // no layout given, derive from channel count
+                AVChannelLayout layout = {};
+                av_channel_layout_default(&layout, _codec_ctx->ch_layout.nb_channels);
+                if (layout.order != AV_CHANNEL_ORDER_NATIVE) {
+                    throw std::runtime_error("Unsupported channel layout");
+                }
+                input_ch_layout = static_cast<int64_t>(layout.u.mask);
+            }
         #else
             // FFmpeg 4.x (libavcodec 58): Legacy channel_layout/channels fields
             int64_t input_ch_layout = _codec_ctx->channel_layout;
             if (input_ch_layout == 0) {
                 // channel_layout not set, derive from channel count
-                input_ch_layout = _codec_ctx->channels > 1
-                    ? AV_CH_LAYOUT_STEREO
-                    : AV_CH_LAYOUT_MONO;
+                input_ch_layout = av_get_default_channel_layout(_codec_ctx->channels);
             }
         #endif
 
-- 
2.43.0


From 839193bde7fa9465a3b3cc93fe500ca0567dfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 51/62] fix: audio file source: take all channels of planar
 frames with more than eight

---
 desktop_blocks/sources/source_audio_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 9f7c1a2..979e3d6 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -138,7 +138,8 @@ private:
     int _decode(bool& rewound) {
         int ret = avcodec_receive_frame(_codec_ctx, _frame);
         if (ret == 0) {
-            return _convert((const uint8_t**)_frame->data, _frame->nb_samples);
+            // extended_data has every channel of planar samples, data only the first eight
+            return _convert((const uint8_t**)_frame->extended_data, _frame->nb_samples);
         }
 
         if (ret == AVERROR_EOF) {
-- 
2.43.0


From f50a6ecc30629f793e9a9210edb384e6de427a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 52/62] fix: the mass-spring-damper example drew the plant's
 position while its block changed it

---
 desktop_examples/mass_spring_damper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/desktop_examples/mass_spring_damper.cpp b/desktop_examples/mass_spring_damper.cpp
index a4d42e2..65f0cf9 100644
--- a/desktop_examples/mass_spring_damper.cpp
+++ b/desktop_examples/mass_spring_damper.cpp
@@ -59,10 +59,13 @@ struct PlantBlock : public cler::BlockBase {
                 measured_position_out->push(_x);
             }
         }
+        _rendered_x.store(_x, std::memory_order_relaxed);
         return cler::Empty{};
     }
 
     void render() {
+        const float position = _rendered_x.load(std::memory_order_relaxed);
+
         ImGui::SetNextWindowSize(_initial_window_size, ImGuiCond_FirstUseEver);
         ImGui::SetNextWindowPos(_initial_window_position, ImGuiCond_FirstUseEver);
         ImGui::Begin("Plant");
@@ -82,7 +85,7 @@ struct PlantBlock : public cler::BlockBase {
         float spring_start_x = canvas_p0.x + 50.0f;
         float center_y = (canvas_p0.y + canvas_p1.y) * 0.5f;
 
-        float spring_end_x = spring_start_x + 200.0f + _x * 20.0f;
+        float spring_end_x = spring_start_x + 200.0f + position * 20.0f;
 
         // Floor line
         draw_list->AddLine(
@@ -160,6 +163,7 @@ struct PlantBlock : public cler::BlockBase {
     private:
         float _x = 0.0;
         float _v = 0.0;
+        std::atomic<float> _rendered_x {0.0f}; // _x, as the GUI thread may read it
         
         ImVec2 _initial_window_position {0.0f, 0.0f};
         ImVec2 _initial_window_size {600.0f, 300.0f};
-- 
2.43.0


From d535200cefdb065078a23f3f583954af7195ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 53/62] fix: the CaribouLite spectrum example passed its sample
 rate as the frequency and the frequency as the rate

---
 desktop_examples/cariboulite_spectrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_examples/cariboulite_spectrum.cpp b/desktop_examples/cariboulite_spectrum.cpp
index f548e4a..d641abe 100644
--- a/desktop_examples/cariboulite_spectrum.cpp
+++ b/desktop_examples/cariboulite_spectrum.cpp
@@ -11,8 +11,8 @@ int main() {
     SourceCaribouliteBlock<std::complex<float>> source_cariboulite(
         "SourceCaribouLite",
         CaribouLiteRadio::RadioType::S1G,
-        static_cast<float>(sps),
         freq_hz,
+        static_cast<float>(sps),
         true
     );
 
-- 
2.43.0


From 47238790f121ef2cb4b92d1796d79a17684a6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 54/62] fix: the GMSK example printed received payloads as
 strings, past their end

---
 desktop_examples/ezgmsk/mod_demod_simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_examples/ezgmsk/mod_demod_simulation.cpp b/desktop_examples/ezgmsk/mod_demod_simulation.cpp
index 6e62d8d..bbe6837 100644
--- a/desktop_examples/ezgmsk/mod_demod_simulation.cpp
+++ b/desktop_examples/ezgmsk/mod_demod_simulation.cpp
@@ -47,7 +47,7 @@ int ezgmsk_demod_cb(
     }
 
     if (_state == ezgmsk::EZGMSK_DEMOD_STATE_RXPAYLOAD) {
-        printf("%s\n",_payload);
+        printf("%.*s\n", static_cast<int>(_payload_len), reinterpret_cast<const char*>(_payload));
     }
     return 0;
 }
-- 
2.43.0


From 5c861105d49baff3f600dd01614f96dd63508180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 55/62] fix: ADSB aggregator: don't decode a position from an
 even and an odd frame minutes apart

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 11 +++++++++--
 desktop_blocks/adsb/adsb_types.hpp     |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5bcb9e9..89ee1b0 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -110,14 +110,20 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     state.last_even_cprlat = msg.raw_latitude;
                     state.last_even_cprlon = msg.raw_longitude;
                     state.has_even_position = true;
+                    state.last_even_time = now;
                 } else {  // Odd frame (fflag == 1)
                     state.last_odd_cprlat = msg.raw_latitude;
                     state.last_odd_cprlon = msg.raw_longitude;
                     state.has_odd_position = true;
+                    state.last_odd_time = now;
                 }
 
-                // Try to decode position if we have both even and odd frames
-                if (state.has_even_position && state.has_odd_position) {
+                // Try to decode position if we have both even and odd frames. They only
+                // belong together if the aircraft hasn't moved far in between.
+                const uint32_t pair_age = (state.last_even_time > state.last_odd_time)
+                    ? state.last_even_time - state.last_odd_time
+                    : state.last_odd_time - state.last_even_time;
+                if (state.has_even_position && state.has_odd_position && pair_age <= MAX_CPR_PAIR_AGE) {
                     double lat, lon;
                     int result = decodeCPRairborne(
                         state.last_even_cprlat, state.last_even_cprlon,
@@ -260,6 +266,7 @@ private:
     bool _coastlines_loaded;
 
     static constexpr size_t MESSAGE_BUFFER_SIZE = 1024;
+    static constexpr uint32_t MAX_CPR_PAIR_AGE = 10; // seconds
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
     ImVec2 lat_lon_to_screen(float lat, float lon, ImVec2 canvas_pos, ImVec2 canvas_size) {
diff --git a/desktop_blocks/adsb/adsb_types.hpp b/desktop_blocks/adsb/adsb_types.hpp
index 13d3f37..a10c10c 100644
--- a/desktop_blocks/adsb/adsb_types.hpp
+++ b/desktop_blocks/adsb/adsb_types.hpp
@@ -24,6 +24,8 @@ struct ADSBState {
     int last_odd_cprlon;            // Last odd frame longitude (17 bits)
     bool has_even_position;         // True if we have a valid even position
     bool has_odd_position;          // True if we have a valid odd position
+    uint32_t last_even_time;        // Timestamp of last even frame
+    uint32_t last_odd_time;         // Timestamp of last odd frame
 
     // Altitude and speed (most recent)
     int altitude;                   // Altitude (feet)
@@ -41,6 +43,7 @@ struct ADSBState {
           last_even_cprlat(0), last_even_cprlon(0),
           last_odd_cprlat(0), last_odd_cprlon(0),
           has_even_position(false), has_odd_position(false),
+          last_even_time(0), last_odd_time(0),
           altitude(0), groundspeed(0.0f), track(0.0f), vertical_rate(0),
           last_update_time(0), message_count(0) {
         callsign[0] = '\0';
-- 
2.43.0


From a024a77f96c8eb098854a419e389124d29228bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 56/62] fix: the RTOS hello-world examples destroyed their
 blocks and flowgraph as soon as they ran

---
 .../freertos_examples/frts_hello_world.cpp            | 11 ++++++-----
 .../threadx_examples/thx_hello_world.cpp              | 11 ++++++-----
 embedded_examples/zephyr_examples/zph_hello_world.cpp | 11 ++++++-----
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/embedded_examples/freertos_examples/frts_hello_world.cpp b/embedded_examples/freertos_examples/frts_hello_world.cpp
index 8111774..4095245 100644
--- a/embedded_examples/freertos_examples/frts_hello_world.cpp
+++ b/embedded_examples/freertos_examples/frts_hello_world.cpp
@@ -146,13 +146,14 @@ void hello_world_task(void* pvParameters) {
 
     const size_t SPS = 1000;
     
-    EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
-    EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
-    EmbeddedAddBlock<float> adder("Adder");
-    EmbeddedPrintSinkBlock<float> sink("PrintSink");
+    // The blocks and the flowgraph outlive this function: run() returns at once and this task then deletes itself, with its stack.
+    static EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
+    static EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
+    static EmbeddedAddBlock<float> adder("Adder");
+    static EmbeddedPrintSinkBlock<float> sink("PrintSink");
 
     // Create FreeRTOS flowgraph
-    auto flowgraph = cler::make_freertos_flowgraph(
+    static auto flowgraph = cler::make_freertos_flowgraph(
         cler::BlockRunner(&source1, &adder.in1),
         cler::BlockRunner(&source2, &adder.in2),
         cler::BlockRunner(&adder, &sink.in),
diff --git a/embedded_examples/threadx_examples/thx_hello_world.cpp b/embedded_examples/threadx_examples/thx_hello_world.cpp
index ffe97f5..d5180d1 100644
--- a/embedded_examples/threadx_examples/thx_hello_world.cpp
+++ b/embedded_examples/threadx_examples/thx_hello_world.cpp
@@ -147,13 +147,14 @@ void hello_world_thread_entry(ULONG thread_input) {
 
     const size_t SPS = 1000;
     
-    EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
-    EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
-    EmbeddedAddBlock<float> adder("Adder");
-    EmbeddedPrintSinkBlock<float> sink("PrintSink");
+    // The blocks and the flowgraph outlive this function: run() returns at once and this thread then ends; its stack has no room for the channels either.
+    static EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
+    static EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
+    static EmbeddedAddBlock<float> adder("Adder");
+    static EmbeddedPrintSinkBlock<float> sink("PrintSink");
 
     // Create ThreadX flowgraph
-    auto flowgraph = cler::make_threadx_flowgraph(
+    static auto flowgraph = cler::make_threadx_flowgraph(
         cler::BlockRunner(&source1, &adder.in1),
         cler::BlockRunner(&source2, &adder.in2),
         cler::BlockRunner(&adder, &sink.in),
diff --git a/embedded_examples/zephyr_examples/zph_hello_world.cpp b/embedded_examples/zephyr_examples/zph_hello_world.cpp
index 3d0ee3f..c1bede6 100644
--- a/embedded_examples/zephyr_examples/zph_hello_world.cpp
+++ b/embedded_examples/zephyr_examples/zph_hello_world.cpp
@@ -147,13 +147,14 @@ int main() {
 
     const size_t SPS = 1000;
     
-    EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
-    EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
-    EmbeddedAddBlock<float> adder("Adder");
-    EmbeddedPrintSinkBlock<float> sink("PrintSink");
+    // The blocks and the flowgraph outlive this function: run() returns at once and main() then ends.
+    static EmbeddedSourceCWBlock<float> source1("CWSource1", 1.0f, 1.0f, SPS, 64);
+    static EmbeddedSourceCWBlock<float> source2("CWSource2", 0.5f, 10.0f, SPS, 64);
+    static EmbeddedAddBlock<float> adder("Adder");
+    static EmbeddedPrintSinkBlock<float> sink("PrintSink");
 
     // Create Zephyr flowgraph
-    auto flowgraph = cler::make_zephyr_flowgraph(
+    static auto flowgraph = cler::make_zephyr_flowgraph(
         cler::BlockRunner(&source1, &adder.in1),
         cler::BlockRunner(&source2, &adder.in2),
         cler::BlockRunner(&adder, &sink.in),
-- 
2.43.0


From 706fd5cca8358ae18e3155cd00afb00f15c3e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 57/62] fix: the Zephyr hello-world example printed negative
 samples as 0.-345

---
 embedded_examples/zephyr_examples/zph_hello_world.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/embedded_examples/zephyr_examples/zph_hello_world.cpp b/embedded_examples/zephyr_examples/zph_hello_world.cpp
index c1bede6..8c2394a 100644
--- a/embedded_examples/zephyr_examples/zph_hello_world.cpp
+++ b/embedded_examples/zephyr_examples/zph_hello_world.cpp
@@ -126,8 +126,9 @@ struct EmbeddedPrintSinkBlock : public cler::BlockBase {
             // Print every 100th sample to avoid spamming
             if (_sample_count % 100 == 0) {
                 if constexpr (std::is_same_v<T, float>) {
-                    printk("Sample %zu: %d.%03d\n", _sample_count, 
-                           (int)sample, (int)((sample - (int)sample) * 1000));
+                    int thousandths = (int)(sample * 1000);
+                    printk("Sample %zu: %s%d.%03d\n", _sample_count, thousandths < 0 ? "-" : "",
+                           std::abs(thousandths) / 1000, std::abs(thousandths) % 1000);
                 } else {
                     printk("Sample %zu: complex value\n", _sample_count);
                 }
-- 
2.43.0


From aad2cbf76f5803d07f66d839198be01e8579777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 58/62] fix: the RTOS hello-world sinks never yielded: on
 kernels without time slicing nothing else ran

---
 embedded_examples/freertos_examples/frts_hello_world.cpp | 3 +++
 embedded_examples/threadx_examples/thx_hello_world.cpp   | 3 +++
 embedded_examples/zephyr_examples/zph_hello_world.cpp    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/embedded_examples/freertos_examples/frts_hello_world.cpp b/embedded_examples/freertos_examples/frts_hello_world.cpp
index 4095245..8fa0bda 100644
--- a/embedded_examples/freertos_examples/frts_hello_world.cpp
+++ b/embedded_examples/freertos_examples/frts_hello_world.cpp
@@ -117,6 +117,9 @@ struct EmbeddedPrintSinkBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure() {
         size_t available_samples = in.size();
+        if (available_samples == 0) {
+            return cler::Error::NotEnoughSamples;
+        }
         
         for (size_t i = 0; i < available_samples; ++i) {
             T sample;
diff --git a/embedded_examples/threadx_examples/thx_hello_world.cpp b/embedded_examples/threadx_examples/thx_hello_world.cpp
index d5180d1..0608e6d 100644
--- a/embedded_examples/threadx_examples/thx_hello_world.cpp
+++ b/embedded_examples/threadx_examples/thx_hello_world.cpp
@@ -116,6 +116,9 @@ struct EmbeddedPrintSinkBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure() {
         size_t available_samples = in.size();
+        if (available_samples == 0) {
+            return cler::Error::NotEnoughSamples;
+        }
         
         for (size_t i = 0; i < available_samples; ++i) {
             T sample;
diff --git a/embedded_examples/zephyr_examples/zph_hello_world.cpp b/embedded_examples/zephyr_examples/zph_hello_world.cpp
index 8c2394a..087b8f6 100644
--- a/embedded_examples/zephyr_examples/zph_hello_world.cpp
+++ b/embedded_examples/zephyr_examples/zph_hello_world.cpp
@@ -117,6 +117,9 @@ struct EmbeddedPrintSinkBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure() {
         size_t available_samples = in.size();
+        if (available_samples == 0) {
+            return cler::Error::NotEnoughSamples;
+        }
         
         for (size_t i = 0; i < available_samples; ++i) {
             T sample;
-- 
2.43.0


From cb719d03603c9c723e64cc47bded3a561ee44dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 59/62] fix: the audio sink initialised PortAudio and never
 terminated it

---
 desktop_blocks/sinks/sink_audio.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index ebe2def..255d85c 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -49,24 +49,30 @@ struct SinkAudioBlock : public cler::BlockBase {
                 std::to_string(cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(float)) + " elements");
         }
 
-        // Initialize PortAudio (safe to call multiple times)
+        // Initialize PortAudio (safe to call multiple times, as often as Pa_Terminate())
         PaError err = Pa_Initialize();
         pa_check(err);
 
-        // Validate device index if specified
-        if (device_index != paNoDevice) {
-            int num_devices = Pa_GetDeviceCount();
-            if (num_devices < 0 || device_index >= num_devices) {
-                throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+        try {
+            // Validate device index if specified
+            if (device_index != paNoDevice) {
+                int num_devices = Pa_GetDeviceCount();
+                if (num_devices < 0 || device_index >= num_devices) {
+                    throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+                }
             }
-        }
 
-        // Open the audio stream
-        _open_stream();
+            // Open the audio stream
+            _open_stream();
+        } catch (...) {
+            Pa_Terminate();
+            throw;
+        }
     }
 
     ~SinkAudioBlock() {
         _close_stream();
+        Pa_Terminate();
     }
 
     cler::Result<cler::Empty, cler::Error> procedure() {
@@ -105,6 +111,7 @@ struct SinkAudioBlock : public cler::BlockBase {
 
         int num_devices = Pa_GetDeviceCount();
         if (num_devices < 0) {
+            Pa_Terminate();
             throw std::runtime_error("Pa_GetDeviceCount() failed");
         }
 
@@ -119,6 +126,7 @@ struct SinkAudioBlock : public cler::BlockBase {
                        info->defaultHighOutputLatency * 1000.0);
             }
         }
+        Pa_Terminate();
     }
 
 private:
-- 
2.43.0


From 1ff6731d9d51118dca021d148afdf514dd6fa71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 60/62] fix: HackRF constructors that failed left libhackrf
 initialised

---
 desktop_blocks/sinks/sink_hackrf.hpp     | 6 ++++++
 desktop_blocks/sources/source_hackrf.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/desktop_blocks/sinks/sink_hackrf.hpp b/desktop_blocks/sinks/sink_hackrf.hpp
index c11893e..d22510c 100644
--- a/desktop_blocks/sinks/sink_hackrf.hpp
+++ b/desktop_blocks/sinks/sink_hackrf.hpp
@@ -44,6 +44,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -51,6 +52,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX frequency.");
         }
 
@@ -58,6 +60,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX sample rate.");
         }
 
@@ -65,6 +68,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_txvga_gain(_dev, txvga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TXVGA gain.");
         }
 
@@ -72,6 +76,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -79,6 +84,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_start_tx(_dev, tx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start TX streaming.");
         }
 
diff --git a/desktop_blocks/sources/source_hackrf.hpp b/desktop_blocks/sources/source_hackrf.hpp
index f23f963..9b5a1ed 100644
--- a/desktop_blocks/sources/source_hackrf.hpp
+++ b/desktop_blocks/sources/source_hackrf.hpp
@@ -43,6 +43,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -50,6 +51,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set frequency.");
         }
 
@@ -57,6 +59,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set sample rate.");
         }
 
@@ -64,6 +67,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_lna_gain(_dev, lna_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set LNA gain.");
         }
 
@@ -71,6 +75,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_vga_gain(_dev, vga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set VGA gain.");
         }
 
@@ -78,6 +83,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -85,6 +91,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_start_rx(_dev, rx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start RX streaming.");
         }
 
-- 
2.43.0


From c5681e683d34facd2d8e77c5c7c5337ee0d62d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 61/62] fix: the ThreadX back-end took every timer tick for a
 millisecond

---
 include/task_policies/cler_threadx_tpolicy.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index 8e41d06..f09f938 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -155,9 +155,13 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     }
     
     static void sleep_us(size_t microseconds) {
-        // Convert microseconds to timer ticks
-        // ThreadX timer ticks are typically milliseconds
-        ULONG ticks = (microseconds + 999) / 1000; // Round up to ms
+        // Convert microseconds to timer ticks: the port says how many there are in a second
+#ifdef TX_TIMER_TICKS_PER_SECOND
+        const unsigned long long ticks_per_second = TX_TIMER_TICKS_PER_SECOND;
+#else
+        const unsigned long long ticks_per_second = 1000; // ThreadX timer ticks are typically milliseconds
+#endif
+        ULONG ticks = static_cast<ULONG>((microseconds * ticks_per_second + 999999) / 1000000); // Round up
         if (ticks == 0) ticks = 1; // Minimum delay
         tx_thread_sleep(ticks);
     }
-- 
2.43.0


From ceae8836b14fc1224f17953c378a218ba061758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 62/62] fix: a run inherited the back-off of the run before it

---
 include/cler.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 06e6b98..af4eae0 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -238,7 +238,12 @@ namespace cler {
         void run(const FlowGraphConfig& config = FlowGraphConfig{}) {
             _config = config;
             _stop_flag.store(false, std::memory_order_release);
-            
+
+            // Every run backs off afresh
+            for (auto& s : _stats) {
+                s.current_adaptive_sleep_us.store(0.0);
+                s.consecutive_fails.store(0);
+            }
             
             switch (config.scheduler) {
                 case SchedulerType::ThreadPerBlock:
-- 
2.43.0

