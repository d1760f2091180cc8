From 2db65ad427e2dd1962178763b1164c781bda7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:50 +0000
Subject: [PATCH 01/63] fix: timed condition waits time out on the clock they
 were computed on

---
 src/common/mcp_sync.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..81a8f2e 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,20 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+    // mcp_cond_timedwait computes its deadlines on the monotonic clock, so the
+    // condition variable has to wait on that clock too.
+    pthread_condattr_t attr;
+    if (pthread_condattr_init(&attr) != 0) {
+        mcp_log_error("Failed to initialize pthread condition variable attributes");
+        sync_free(cond);
+        return NULL;
+    }
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+    int init_result = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+    if (init_result != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +293,7 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0


From 2ea7c600d1cea4e87a541f832b3b40f2ccc8fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:50 +0000
Subject: [PATCH 02/63] fix: thread pool runs every accepted task once across
 concurrent submission and resize

Submitters pushed onto deques as if they owned them, so tasks were lost or
run twice. Deque operations now run under a small lock. Resizing no longer
strands tasks of a removed worker, deadlocks with waiting workers or loses
the handle of a thread that still has to be joined.
---
 .../internal/mcp_thread_pool_internal.h       |  6 +-
 src/common/mcp_thread_pool.c                  | 56 +++++++++++++++----
 src/common/mcp_thread_pool_deque.c            | 46 ++++++++++++---
 src/common/mcp_thread_pool_worker.c           | 26 +++++----
 4 files changed, 104 insertions(+), 30 deletions(-)

diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 564f95a..76a6484 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -80,6 +80,8 @@ typedef struct {
     // Buffer pointer - aligned to cache line
     MCP_CACHE_ALIGNED mcp_task_t* buffer;     /**< Circular buffer for tasks. */
 
+    volatile size_t lock;                     /**< Spinlock guarding top, bottom and buffer: any thread may submit. */
+
     // Final padding to ensure no false sharing with adjacent structures
     char pad3[MCP_CACHE_LINE_SIZE - sizeof(size_t) - sizeof(mcp_task_t*)];
 } work_stealing_deque_t;
@@ -101,7 +103,9 @@ struct mcp_thread_pool {
     worker_arg_t** worker_args; /**< Array of worker thread arguments for cleanup. */
     size_t thread_count;        /**< Number of worker threads. */
     size_t max_thread_count;    /**< Maximum thread count (size of allocated arrays). */
-    int started;                /**< Number of threads successfully started. */
+    int started;                /**< Number of slots of threads[] holding a started thread. */
+    mcp_thread_t* retired;      /**< Threads replaced in their slot by a resize, still to be joined. */
+    size_t retired_count;       /**< Number of entries in retired[]. */
 
     // Group 3: Deque management (rarely modified after initialization)
     work_stealing_deque_t* deques; /**< Array of work-stealing deques, one per thread. */
diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 4606c0e..b534cbd 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -25,6 +25,8 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
     pool->max_thread_count = thread_count;  // Store original allocation size
     pool->shutdown_flag = 0;
     pool->started = 0;
+    pool->retired = NULL;
+    pool->retired_count = 0;
     pool->rwlock = NULL;
     pool->cond_mutex = NULL;
     pool->notify = NULL;
@@ -52,7 +54,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 
     // Allocate memory for threads, deques array, and sync primitives
     pool->threads = (mcp_thread_t*)malloc(sizeof(mcp_thread_t) * thread_count);
-    pool->deques = (work_stealing_deque_t*)malloc(sizeof(work_stealing_deque_t) * thread_count);
+    pool->deques = (work_stealing_deque_t*)calloc(thread_count, sizeof(work_stealing_deque_t));
     pool->worker_args = (worker_arg_t**)malloc(sizeof(worker_arg_t*) * thread_count);
     pool->worker_status = (volatile int*)calloc(thread_count, sizeof(int));
     pool->tasks_stolen = (volatile size_t*)calloc(thread_count, sizeof(size_t));
@@ -83,6 +85,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
                     #else
                         free(pool->deques[j].buffer);
                     #endif
+                    pool->deques[j].buffer = NULL;
                 }
                 break;
             }
@@ -127,8 +130,13 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         return NULL;
     }
 
-    // Start worker threads, passing index
+    // Start worker threads, passing index. The workers compare their index with
+    // thread_count, so it has to be valid before the first one runs.
     allocation_failed = false;
+    pool->thread_count = thread_count;
+    for (size_t i = 0; i < thread_count; ++i) {
+        pool->worker_args[i] = NULL;
+    }
     for (size_t i = 0; i < thread_count; ++i) {
         worker_arg_t* arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
         if (!arg) {
@@ -151,7 +159,6 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
             allocation_failed = true;
             break;
         }
-        pool->thread_count++;
         pool->started++;
     }
 
@@ -275,11 +282,6 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
         // Set new thread count after signaling exit flags
         pool->thread_count = new_thread_count;
 
-        // Signal all threads to check their exit flags
-        mcp_mutex_lock(pool->cond_mutex);
-        mcp_cond_broadcast(pool->notify);
-        mcp_mutex_unlock(pool->cond_mutex);
-
         // Worker threads will exit when they see their should_exit flag is true
         mcp_log_debug("Pool shrunk from %zu to %zu threads", pool->thread_count + (pool->thread_count - new_thread_count), new_thread_count);
     }
@@ -295,8 +297,23 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
                 mcp_rwlock_write_unlock(pool->rwlock);
                 return -1;
             }
+            // The thread that had this slot before may still be running: keep its
+            // handle so that destroy can join it.
+            size_t slot = pool->thread_count + i;
+            if (slot < (size_t)pool->started) {
+                mcp_thread_t* retired = (mcp_thread_t*)realloc(pool->retired, sizeof(mcp_thread_t) * (pool->retired_count + 1));
+                if (!retired) {
+                    mcp_log_error("Failed to allocate memory for retired threads");
+                    free(arg);
+                    pool->thread_count += i; // Update to actual number of threads
+                    mcp_rwlock_write_unlock(pool->rwlock);
+                    return -1;
+                }
+                pool->retired = retired;
+            }
+            mcp_thread_t previous = pool->threads[slot];
             arg->pool = pool;
-            arg->worker_index = pool->thread_count + i;
+            arg->worker_index = slot;
             arg->should_exit = false;  // Initialize exit flag
             arg->is_active = false;    // Initialize active flag
 
@@ -305,17 +322,29 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
 
             if (mcp_thread_create(&(pool->threads[arg->worker_index]), thread_pool_worker, arg) != 0) {
                 mcp_log_error("Failed to create worker thread");
+                pool->threads[slot] = previous;
                 free(arg);
-                pool->worker_args[arg->worker_index] = NULL;
+                pool->worker_args[slot] = NULL;
                 pool->thread_count += i; // Update to actual number of threads
                 mcp_rwlock_write_unlock(pool->rwlock);
                 return -1;
             }
+            if (slot < (size_t)pool->started) {
+                pool->retired[pool->retired_count++] = previous;
+            } else {
+                pool->started = (int)slot + 1;
+            }
         }
         pool->thread_count = new_thread_count;
     }
 
     mcp_rwlock_write_unlock(pool->rwlock);
+
+    // Signal all threads to check their exit flags. Workers take rwlock while
+    // holding cond_mutex, so this must not be done under the write lock.
+    mcp_mutex_lock(pool->cond_mutex);
+    mcp_cond_broadcast(pool->notify);
+    mcp_mutex_unlock(pool->cond_mutex);
     return 0;
 }
 
@@ -403,6 +432,13 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
         // potentially freeing memory that's still in use by a running thread
     }
 
+    for (size_t i = 0; i < pool->retired_count; ++i) {
+        if (mcp_thread_join(pool->retired[i], NULL) != 0) {
+            err = -1;
+        }
+    }
+    free(pool->retired);
+
     // Log final statistics
     mcp_log_info("Thread pool statistics: submitted=%zu, completed=%zu, failed=%zu",
                  pool->tasks_submitted, pool->tasks_completed, pool->tasks_failed);
diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 922ab2a..841bd1d 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -8,13 +8,44 @@
  */
 #include "internal/mcp_thread_pool_internal.h"
 
-// Push task onto the bottom of the deque (owner thread only)
+// Tasks are submitted by arbitrary threads, not only by the deque's owner, so
+// every operation on a deque runs under its lock.
+static void deque_lock(work_stealing_deque_t* deque) {
+    while (!compare_and_swap_size(&deque->lock, 0, 1)) {
+        mcp_thread_yield();
+    }
+}
+
+static void deque_unlock(work_stealing_deque_t* deque) {
+    fetch_add_size(&deque->lock, (size_t)-1);
+}
+
+static bool pop_bottom_locked(work_stealing_deque_t* deque, mcp_task_t* task);
+static bool steal_top_locked(work_stealing_deque_t* deque, mcp_task_t* task);
+
+bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
+    deque_lock(deque);
+    bool popped = pop_bottom_locked(deque, task);
+    deque_unlock(deque);
+    return popped;
+}
+
+bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task) {
+    deque_lock(deque);
+    bool stolen = steal_top_locked(deque, task);
+    deque_unlock(deque);
+    return stolen;
+}
+
+// Push task onto the bottom of the deque
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
+    deque_lock(deque);
     size_t b = load_size(&deque->bottom);
-    // Do not need to load top for push, only check against capacity later if needed
-    // size_t t = load_size(&deque->top);
-    // size_t size = b - t;
-    // if (size >= (deque->capacity_mask + 1)) { return false; } // Check happens implicitly below
+    size_t t = load_size(&deque->top);
+    if (b - t >= deque->capacity_mask + 1) {
+        deque_unlock(deque);
+        return false; // Full
+    }
 
     size_t index = b & deque->capacity_mask;
     deque->buffer[index] = task;
@@ -28,11 +59,12 @@ bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
 
     // Increment bottom (owner only, volatile write is sufficient)
     deque->bottom = b + 1;
+    deque_unlock(deque);
     return true;
 }
 
 // Pop task from the bottom of the deque (owner thread only)
-bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
+static bool pop_bottom_locked(work_stealing_deque_t* deque, mcp_task_t* task) {
     size_t b = load_size(&deque->bottom);
     if (b == 0) return false;
     b = b - 1;
@@ -77,7 +109,7 @@ bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
 }
 
 // Steal task from the top of the deque (thief threads only)
-bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task) {
+static bool steal_top_locked(work_stealing_deque_t* deque, mcp_task_t* task) {
     size_t t = load_size(&deque->top);
 
     // Ensure top read happens before reading bottom (memory barrier)
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 832fb27..61be351 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -47,13 +47,10 @@ void* thread_pool_worker(void* arg) {
     worker_locals.my_index = worker_locals.worker_data->worker_index;
     worker_locals.my_deque = &worker_locals.pool->deques[worker_locals.my_index];
     worker_locals.steal_attempts = 0;
-    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->thread_count;
+    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->max_thread_count;
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
-    // Mark this worker as the owner of its argument
-    worker_locals.pool->worker_args[worker_locals.my_index] = worker_locals.worker_data;
-
     while (1) {
         // Check if this thread should exit - use explicit exit flag first, then fallback to index check
         bool should_exit_explicit = worker_locals.worker_data->should_exit;
@@ -128,7 +125,7 @@ void* thread_pool_worker(void* arg) {
             bool all_empty = true;
 
             // Check all deques
-            for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+            for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                 size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                 size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -147,7 +144,7 @@ void* thread_pool_worker(void* arg) {
         }
 
         // 3. Try to steal using an optimized strategy
-        if (worker_locals.pool->thread_count > 1) {
+        if (worker_locals.pool->max_thread_count > 1) {
             size_t victim_index = worker_locals.my_index; // Default to own index (will be changed)
 
             // Increment scan interval counter
@@ -160,7 +157,7 @@ void* thread_pool_worker(void* arg) {
                 size_t max_tasks = 0;
 
                 // Full scan of all deques
-                for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                     if (i == worker_locals.my_index) continue; // Skip own deque
 
                     size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
@@ -187,7 +184,7 @@ void* thread_pool_worker(void* arg) {
                 if (bottom <= top) {
                     // Try a random victim, but not ourselves
                     do {
-                        victim_index = rand() % worker_locals.pool->thread_count;
+                        victim_index = rand() % worker_locals.pool->max_thread_count;
                     } while (victim_index == worker_locals.my_index);
                 } else {
                     // Last victim still has tasks
@@ -272,7 +269,7 @@ void* thread_pool_worker(void* arg) {
                     bool all_empty = true;
 
                     // Check all deques
-                    for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -297,7 +294,7 @@ void* thread_pool_worker(void* arg) {
                 // If we timed out, check if there are tasks in any deque
                 if (wait_result == -2) { // -2 is timeout
                     bool found_tasks = false;
-                    for (size_t i = 0; i < worker_locals.pool->thread_count && !found_tasks; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count && !found_tasks; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
                         if (bottom > top) {
@@ -329,9 +326,14 @@ void* thread_pool_worker(void* arg) {
         }
     } // End while(1)
 
-    // Clean up worker argument
+    // Clean up worker argument. A resize may already have put a new worker into
+    // this slot, whose argument must stay.
+    mcp_rwlock_write_lock(worker_locals.pool->rwlock);
+    if (worker_locals.pool->worker_args[worker_locals.my_index] == worker_locals.worker_data) {
+        worker_locals.pool->worker_args[worker_locals.my_index] = NULL;
+    }
     free(worker_locals.worker_data);
-    worker_locals.pool->worker_args[worker_locals.my_index] = NULL;
+    mcp_rwlock_write_unlock(worker_locals.pool->rwlock);
 
     return NULL;
 }
-- 
2.43.0


From 54b2a66155db160352a1de3ae79d1c9cfbfb71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:50 +0000
Subject: [PATCH 03/63] fix: thread pool wait only succeeds when the tasks
 accepted before it are done

Completed tasks were compared with a count that ignored completion order,
and the time-out was counted in wake-ups instead of elapsed time. Tasks are
no longer accepted after shutdown was requested.
---
 src/common/mcp_thread_pool_tasks.c | 73 ++++++++++++++----------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 2ae9652..46381af 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -6,6 +6,7 @@
  * including task distribution across work-stealing deques and synchronization.
  */
 #include "internal/mcp_thread_pool_internal.h"
+#include <time.h>
 
 /**
  * @brief Adds a new task to the thread pool (distributes to a deque).
@@ -19,13 +20,17 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     // Use read lock to check shutdown state - allows multiple threads to check concurrently
     mcp_rwlock_read_lock(pool->rwlock);
     int shutdown_state = pool->shutdown_flag;
-    mcp_rwlock_read_unlock(pool->rwlock);
 
     if (shutdown_state != 0) {
+        mcp_rwlock_read_unlock(pool->rwlock);
         PROFILE_END("mcp_thread_pool_add_task");
         return -1;
     }
 
+    // The lock is kept until the task is in a deque: once shutdown is set no
+    // task is accepted any more. The task is counted before it can complete.
+    fetch_add_size(&pool->tasks_submitted, 1);
+
     mcp_task_t task = { .function = function, .argument = argument };
 
     // Thread-safe round-robin submission using atomic fetch-and-add
@@ -53,14 +58,15 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
         if (!submission_success) {
             // All deques are full
             mcp_log_error("All deques are full during task submission. Consider increasing queue size.");
+            fetch_add_size(&pool->tasks_submitted, (size_t)-1);
             fetch_add_size(&pool->tasks_failed, 1);
+            mcp_rwlock_read_unlock(pool->rwlock);
             PROFILE_END("mcp_thread_pool_add_task");
             return -1; // Indicate queue full
         }
     }
 
-    // Update statistics
-    fetch_add_size(&pool->tasks_submitted, 1);
+    mcp_rwlock_read_unlock(pool->rwlock);
 
     // Signal a potentially idle worker
     if (mcp_mutex_lock(pool->cond_mutex) == 0) {
@@ -73,6 +79,22 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     return 0;
 }
 
+static uint64_t monotonic_us(void) {
+#ifdef _WIN32
+    return GetTickCount64() * 1000;
+#else
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return (uint64_t)ts.tv_sec * 1000000 + (uint64_t)ts.tv_nsec / 1000;
+#endif
+}
+
+// Completed is read first: a task counted as completed was counted as submitted before
+static bool tasks_outstanding(mcp_thread_pool_t* pool) {
+    size_t completed = load_size(&pool->tasks_completed);
+    return completed < load_size(&pool->tasks_submitted);
+}
+
 /**
  * @brief Waits for all currently queued tasks to complete.
  *
@@ -97,19 +119,9 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return -1; // Pool is shutting down
     }
 
-    // Capture the current number of submitted tasks
-    size_t tasks_to_wait_for = pool->tasks_submitted;
-
-    // If no tasks have been submitted, return immediately
-    if (tasks_to_wait_for == 0) {
-        return 0;
-    }
-
-    // Calculate the number of tasks that should be completed
-    size_t target_completed = tasks_to_wait_for - pool->tasks_failed;
-
-    // If all tasks have already completed, return immediately
-    if (pool->tasks_completed >= target_completed) {
+    // Tasks do not complete in the order of their submission, so the tasks
+    // accepted so far are known to be done only when nothing is outstanding.
+    if (!tasks_outstanding(pool)) {
         return 0;
     }
 
@@ -118,30 +130,13 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return -1; // Failed to lock mutex
     }
 
-    unsigned int wait_time = 0;
+    uint64_t start_time = monotonic_us();
+    uint64_t wait_time = 0;
     unsigned int sleep_interval = 10; // 10ms sleep interval
     int result = 0;
 
-    while ((pool->tasks_completed < target_completed) &&
-           (wait_time < timeout_ms || timeout_ms == 0)) {
-
-        // Check if all deques are empty and no tasks are active
-        bool all_empty = true;
-        for (size_t i = 0; i < pool->max_thread_count; i++) {
-            size_t bottom = load_size(&pool->deques[i].bottom);
-            size_t top = load_size(&pool->deques[i].top);
-
-            if (bottom > top) {
-                all_empty = false;
-                break;
-            }
-        }
-
-        // If all deques are empty and no tasks are active, we're done
-        if (all_empty && pool->active_tasks == 0) {
-            result = 0;
-            break;
-        }
+    while (tasks_outstanding(pool) &&
+           (wait_time < (uint64_t)timeout_ms * 1000 || timeout_ms == 0)) {
 
         // Wait for a signal or timeout
         int wait_result = mcp_cond_timedwait(pool->notify, pool->cond_mutex, sleep_interval);
@@ -152,13 +147,13 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
             break;
         }
 
-        wait_time += sleep_interval;
+        wait_time = monotonic_us() - start_time;
     }
 
     mcp_mutex_unlock(pool->cond_mutex);
 
     // If we timed out and tasks are still not complete
-    if (wait_time >= timeout_ms && timeout_ms > 0 && pool->tasks_completed < target_completed) {
+    if (wait_time >= (uint64_t)timeout_ms * 1000 && timeout_ms > 0 && tasks_outstanding(pool)) {
         return -1; // Timeout
     }
 
-- 
2.43.0


From eac13cff930fbf4b873138ee9e29fcb50ce05ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 04/63] fix: object pool lends its whole capacity to any thread
 and never more

Released objects stayed in caches of the releasing thread where other threads
could not get them, were lost at thread exit and survived the destruction of
their pool. The capacity check was made outside the lock.
---
 src/common/mcp_object_pool.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..c9ec605 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -22,7 +22,9 @@
 
 // Thread-local cache configuration
 #define TLS_CACHE_SIZE 8  // Number of objects to cache per thread
-#define TLS_CACHE_ENABLED 1  // Set to 0 to disable thread-local caching
+// Thread-local caching is off: objects in the cache of one thread cannot be acquired
+// by another one, are lost when the thread ends, and outlive the pool they belong to.
+#define TLS_CACHE_ENABLED 0
 
 // Internal structure for a node in the free list - cache aligned
 typedef MCP_CACHE_ALIGNED struct mcp_pool_node_s {
@@ -30,6 +32,7 @@ typedef MCP_CACHE_ALIGNED struct mcp_pool_node_s {
     char padding[MCP_CACHE_LINE_SIZE - sizeof(struct mcp_pool_node_s*)];
 } mcp_pool_node_t;
 
+#if TLS_CACHE_ENABLED
 // Thread-local cache for object pools
 typedef struct {
     mcp_object_pool_t* pool;     // The pool this cache belongs to
@@ -42,6 +45,7 @@ typedef struct {
 
 // Thread-local cache for multiple pools
 static MCP_THREAD_LOCAL mcp_object_pool_tls_cache_t tls_caches[MAX_CACHED_POOLS] = {0};
+#endif
 
 // Internal structure for the object pool - cache aligned for better performance
 typedef struct mcp_object_pool_s {
@@ -54,6 +58,7 @@ typedef struct mcp_object_pool_s {
     mcp_pool_node_t* free_list_head;   // Head of the linked list of free objects
     mcp_mutex_t* lock;                 // Mutex for thread safety
     void* memory_block;                // Pointer to the initially allocated contiguous block (if any)
+    size_t block_objects;              // Number of objects in memory_block
 
     // Statistics - updated atomically when possible
     size_t peak_usage;                 // Peak number of objects in use
@@ -61,14 +66,16 @@ typedef struct mcp_object_pool_s {
 
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE -
-                ((2 * sizeof(size_t) + 6 * sizeof(size_t) +
+                ((2 * sizeof(size_t) + 7 * sizeof(size_t) +
                   sizeof(mcp_pool_node_t*) + sizeof(mcp_mutex_t*) +
                   sizeof(void*)) % MCP_CACHE_LINE_SIZE)];
 } MCP_CACHE_ALIGNED mcp_object_pool_t;
 
+#if TLS_CACHE_ENABLED
 // Forward declarations for thread-local cache functions
 static mcp_object_pool_tls_cache_t* find_tls_cache(mcp_object_pool_t* pool);
 static mcp_object_pool_tls_cache_t* create_tls_cache(mcp_object_pool_t* pool);
+#endif
 static void* aligned_malloc(size_t size);
 static void aligned_free(void* ptr);
 
@@ -163,6 +170,7 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
         pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
         if (pool->memory_block) {
             pool->total_objects = initial_capacity;
+            pool->block_objects = initial_capacity;
             pool->free_objects = initial_capacity;
             char* current_obj_ptr = (char*)pool->memory_block;
             mcp_pool_node_t* current_node = NULL;
@@ -248,8 +256,18 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If objects were allocated in a single block, just free the block
+    // If objects were allocated in a single block, free the objects added later and the block
     if (pool->memory_block) {
+        char* start = (char*)pool->memory_block;
+        char* end = start + pool->block_objects * pool->aligned_size;
+        mcp_pool_node_t* node = pool->free_list_head;
+        while (node) {
+            mcp_pool_node_t* next_node = node->next;
+            if ((char*)node < start || (char*)node >= end) {
+                aligned_free(node);
+            }
+            node = next_node;
+        }
         aligned_free(pool->memory_block);
         pool->memory_block = NULL;
     } else {
@@ -339,11 +357,12 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
         return (void*)node;
     }
 
-    // Free list is empty, try to allocate a new one if allowed
+    // Free list is empty, try to allocate a new one if allowed. The lock is kept so
+    // that the capacity check and the new count belong together.
+    // Statistics are updated inside allocate_new_object
+    obj = allocate_new_object(pool);
     mcp_mutex_unlock(pool->lock);
-
-    // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
@@ -435,6 +454,7 @@ bool mcp_object_pool_get_stats(mcp_object_pool_t* pool,
     return true;
 }
 
+#if TLS_CACHE_ENABLED
 // Helper function to find a thread-local cache for a pool
 static mcp_object_pool_tls_cache_t* find_tls_cache(mcp_object_pool_t* pool) {
     for (int i = 0; i < MAX_CACHED_POOLS; i++) {
@@ -475,3 +495,4 @@ static mcp_object_pool_tls_cache_t* create_tls_cache(mcp_object_pool_t* pool) {
     tls_caches[0].count = 0;
     return &tls_caches[0];
 }
+#endif
-- 
2.43.0


From d033404b7f595a9b91923d2e9b9fc62ebc723749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:42 +0000
Subject: [PATCH 05/63] fix: memory pool recognises its blocks by address

Freeing a malloc'ed pointer read the bytes in front of it and trusted them as
a block header. Lazy initialisation by two threads at once created the pools
twice, and blocks added later were leaked on destruction.
---
 src/common/mcp_memory_pool.c | 160 ++++++++++++++++++++++++++++++-----
 1 file changed, 141 insertions(+), 19 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..184d418 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -6,6 +6,14 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <stdint.h>
+
+#ifdef _WIN32
+#define WIN32_LEAN_AND_MEAN
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Magic value to identify blocks allocated from pools
 #define MCP_POOL_MAGIC 0xABCD1234
@@ -31,6 +39,91 @@ struct mcp_memory_pool {
     void* memory_block;          // Pointer to the pre-allocated memory block (if any)
 };
 
+// Addresses of the blocks of all pools (open addressing). A pointer is recognised
+// as a pool block by this set and not by the bytes in front of it, which belong
+// to somebody else when the pointer came from malloc.
+#define MCP_BLOCK_REMOVED ((void*)1)
+static void** g_blocks = NULL;
+static size_t g_blocks_capacity = 0;
+static size_t g_blocks_used = 0;     // Entries including removed ones
+#ifdef _WIN32
+static SRWLOCK g_blocks_lock = SRWLOCK_INIT;
+static SRWLOCK g_init_lock = SRWLOCK_INIT;
+#define STATIC_LOCK(l) AcquireSRWLockExclusive(l)
+#define STATIC_UNLOCK(l) ReleaseSRWLockExclusive(l)
+#else
+static pthread_mutex_t g_blocks_lock = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t g_init_lock = PTHREAD_MUTEX_INITIALIZER;
+#define STATIC_LOCK(l) pthread_mutex_lock(l)
+#define STATIC_UNLOCK(l) pthread_mutex_unlock(l)
+#endif
+
+// Slot of a block in the set, or the slot where it would be inserted
+static size_t block_slot(void** table, size_t capacity, const void* block) {
+    size_t i = (((uintptr_t)block >> 3) * 0x9E3779B1u) & (capacity - 1);
+    while (table[i] && table[i] != block) {
+        i = (i + 1) & (capacity - 1);
+    }
+    return i;
+}
+
+// Adds count consecutive blocks whose headers start at memory
+static bool register_blocks(void* memory, size_t block_size, size_t count) {
+    STATIC_LOCK(&g_blocks_lock);
+    if (g_blocks_capacity == 0 || (g_blocks_used + count) * 2 > g_blocks_capacity) {
+        size_t capacity = 256;
+        while ((g_blocks_used + count) * 2 > capacity) {
+            capacity *= 2;
+        }
+        void** table = (void**)calloc(capacity, sizeof(void*));
+        if (!table) {
+            STATIC_UNLOCK(&g_blocks_lock);
+            return false;
+        }
+        size_t used = 0;
+        for (size_t i = 0; i < g_blocks_capacity; i++) {
+            if (g_blocks[i] && g_blocks[i] != MCP_BLOCK_REMOVED) {
+                table[block_slot(table, capacity, g_blocks[i])] = g_blocks[i];
+                used++;
+            }
+        }
+        free(g_blocks);
+        g_blocks = table;
+        g_blocks_capacity = capacity;
+        g_blocks_used = used;
+    }
+    for (size_t i = 0; i < count; i++) {
+        void* block = (char*)memory + i * block_size + sizeof(mcp_block_header_t);
+        g_blocks[block_slot(g_blocks, g_blocks_capacity, block)] = block;
+    }
+    g_blocks_used += count;
+    STATIC_UNLOCK(&g_blocks_lock);
+    return true;
+}
+
+static void unregister_block(mcp_block_header_t* header) {
+    void* block = (char*)header + sizeof(mcp_block_header_t);
+    STATIC_LOCK(&g_blocks_lock);
+    if (g_blocks_capacity > 0) {
+        size_t i = block_slot(g_blocks, g_blocks_capacity, block);
+        if (g_blocks[i]) {
+            g_blocks[i] = MCP_BLOCK_REMOVED;
+        }
+    }
+    STATIC_UNLOCK(&g_blocks_lock);
+}
+
+// Header of a pool block, or NULL if the pointer does not belong to any pool
+static mcp_block_header_t* find_block(const void* ptr) {
+    mcp_block_header_t* header = NULL;
+    STATIC_LOCK(&g_blocks_lock);
+    if (g_blocks_capacity > 0 && g_blocks[block_slot(g_blocks, g_blocks_capacity, ptr)] == ptr) {
+        header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
+    }
+    STATIC_UNLOCK(&g_blocks_lock);
+    return header;
+}
+
 // Global memory pools
 static mcp_memory_pool_t* g_pools[MCP_POOL_SIZE_COUNT] = {NULL};
 static bool g_pools_initialized = false;
@@ -49,6 +142,7 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool);
 static bool return_to_pool(mcp_memory_pool_t* pool, void* block);
 static mcp_pool_size_class_t get_size_class(size_t size);
 static size_t get_block_size_for_class(mcp_pool_size_class_t size_class);
+static bool system_init_locked(size_t small_initial, size_t medium_initial, size_t large_initial);
 
 mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_blocks, size_t max_blocks) {
     if (block_size < sizeof(mcp_block_header_t)) {
@@ -88,6 +182,10 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
         // Allocate a single contiguous block for better memory locality
         size_t total_size = initial_blocks * pool->block_size;
         pool->memory_block = malloc(total_size);
+        if (pool->memory_block && !register_blocks(pool->memory_block, pool->block_size, initial_blocks)) {
+            free(pool->memory_block);
+            pool->memory_block = NULL;
+        }
 
         if (pool->memory_block) {
             // Initialize each block and add to free list
@@ -114,6 +212,10 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
 
             for (size_t i = 0; i < initial_blocks; i++) {
                 void* block = malloc(pool->block_size);
+                if (block && !register_blocks(block, pool->block_size, 1)) {
+                    free(block);
+                    block = NULL;
+                }
                 if (block) {
                     mcp_block_header_t* header = (mcp_block_header_t*)block;
                     header->magic = MCP_POOL_MAGIC;
@@ -149,17 +251,25 @@ void mcp_memory_pool_destroy(mcp_memory_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
+    // Free the blocks that were allocated individually
+    char* start = (char*)pool->memory_block;
+    char* end = start ? start + pool->initial_blocks * pool->block_size : NULL;
+    mcp_block_header_t* current = pool->free_list;
+    while (current) {
+        mcp_block_header_t* next = current->next;
+        if (!start || (char*)current < start || (char*)current >= end) {
+            unregister_block(current);
+            free(current);
+        }
+        current = next;
+    }
+
     // If we allocated a contiguous memory block, free it
     if (pool->memory_block) {
-        free(pool->memory_block);
-    } else {
-        // Otherwise, free each block individually
-        mcp_block_header_t* current = pool->free_list;
-        while (current) {
-            mcp_block_header_t* next = current->next;
-            free(current);
-            current = next;
+        for (size_t i = 0; i < pool->initial_blocks; i++) {
+            unregister_block((mcp_block_header_t*)(start + i * pool->block_size));
         }
+        free(pool->memory_block);
     }
 
     mcp_mutex_unlock(pool->lock);
@@ -198,6 +308,13 @@ bool mcp_memory_pool_get_stats(mcp_memory_pool_t* pool, mcp_memory_pool_stats_t*
 }
 
 bool mcp_memory_pool_system_init(size_t small_initial, size_t medium_initial, size_t large_initial) {
+    STATIC_LOCK(&g_init_lock);
+    bool result = system_init_locked(small_initial, medium_initial, large_initial);
+    STATIC_UNLOCK(&g_init_lock);
+    return result;
+}
+
+static bool system_init_locked(size_t small_initial, size_t medium_initial, size_t large_initial) {
     if (g_pools_initialized) {
         mcp_log_warn("Memory pool system already initialized");
         return true;
@@ -293,11 +410,11 @@ void* mcp_pool_alloc(size_t size) {
 void mcp_pool_free(void* ptr) {
     if (!ptr) return;
 
-    // Check if this is a pool-allocated block by looking at the header
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
+    // Check if this is a pool-allocated block
+    mcp_block_header_t* header = find_block(ptr);
 
-    // If the magic value doesn't match, assume it was allocated with malloc
-    if (header->magic != MCP_POOL_MAGIC) {
+    // If not, assume it was allocated with malloc
+    if (!header) {
         free(ptr);
         return;
     }
@@ -356,6 +473,13 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool) {
         return NULL;
     }
 
+    if (!register_blocks(header, pool->block_size, 1)) {
+        mcp_mutex_unlock(pool->lock);
+        free(header);
+        mcp_log_error("Failed to register new block for memory pool");
+        return NULL;
+    }
+
     // Initialize the header
     header->magic = MCP_POOL_MAGIC;
     header->pool = pool;
@@ -381,10 +505,10 @@ static bool return_to_pool(mcp_memory_pool_t* pool, void* block) {
     if (!pool || !block) return false;
 
     // Get the header from the user block
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)block - sizeof(mcp_block_header_t));
+    mcp_block_header_t* header = find_block(block);
 
     // Verify that this block belongs to this pool
-    if (header->magic != MCP_POOL_MAGIC || header->pool != pool) {
+    if (!header || header->magic != MCP_POOL_MAGIC || header->pool != pool) {
         mcp_log_error("Attempt to return invalid block to memory pool");
         return false;
     }
@@ -431,11 +555,9 @@ static size_t get_block_size_for_class(mcp_pool_size_class_t size_class) {
 size_t mcp_pool_get_block_size(void* ptr) {
     if (!ptr) return 0;
 
-    // Check if this is a pool-allocated block by looking at the header
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
-
-    // If the magic value doesn't match, it's not a pool-allocated block
-    if (header->magic != MCP_POOL_MAGIC) {
+    // Check if this is a pool-allocated block
+    mcp_block_header_t* header = find_block(ptr);
+    if (!header) {
         return 0;
     }
 
-- 
2.43.0


From 4bf11b832d0a4facad577021369884b56efab190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:52 +0000
Subject: [PATCH 06/63] fix: list nodes no longer come from an unsynchronised
 shared pool

---
 src/common/mcp_list.c | 95 ++++---------------------------------------
 1 file changed, 8 insertions(+), 87 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..1cfa659 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -7,12 +7,8 @@
 #include <stdlib.h>
 #include <assert.h>
 #include "mcp_log.h"
-#include "mcp_buffer_pool.h"
 #include "mcp_sync.h"
 
-// Memory pool size definition
-#define MCP_LIST_NODE_POOL_SIZE 64
-
 // Thread safety helper macros
 #define MCP_LIST_LOCK(list) \
     do { \
@@ -28,91 +24,20 @@
         } \
     } while (0)
 
-// Internal structure for tracking list memory pool
-typedef struct {
-    mcp_buffer_pool_t* node_pool;  // Node memory pool
-    size_t pool_refs;              // Reference count
-} mcp_list_pool_t;
-
-// Global memory pool
-static mcp_list_pool_t* g_list_pool = NULL;
-
-// Initialize global memory pool
-static mcp_list_pool_t* mcp_list_pool_get(void) {
-    if (!g_list_pool) {
-        g_list_pool = (mcp_list_pool_t*)malloc(sizeof(mcp_list_pool_t));
-        if (!g_list_pool) {
-            mcp_log_error("Failed to allocate list pool structure");
-            return NULL;
-        }
-
-        g_list_pool->node_pool = mcp_buffer_pool_create(sizeof(mcp_list_node_t), MCP_LIST_NODE_POOL_SIZE);
-        if (!g_list_pool->node_pool) {
-            mcp_log_error("Failed to create list node pool");
-            free(g_list_pool);
-            g_list_pool = NULL;
-            return NULL;
-        }
-
-        g_list_pool->pool_refs = 0;
-    }
-
-    g_list_pool->pool_refs++;
-    return g_list_pool;
-}
-
-// Release reference to global memory pool
-static void mcp_list_pool_release(void) {
-    if (g_list_pool && g_list_pool->pool_refs > 0) {
-        g_list_pool->pool_refs--;
-
-        if (g_list_pool->pool_refs == 0) {
-            mcp_buffer_pool_destroy(g_list_pool->node_pool);
-            free(g_list_pool);
-            g_list_pool = NULL;
-        }
-    }
-}
-
-// Allocate node from memory pool
+// Nodes are allocated one by one: a node pool shared by all lists would have to
+// be synchronised between lists that are otherwise independent of each other.
 static mcp_list_node_t* mcp_list_node_alloc(void) {
-    if (!g_list_pool || !g_list_pool->node_pool) {
-        return (mcp_list_node_t*)malloc(sizeof(mcp_list_node_t));
-    }
-
-    mcp_list_node_t* node = (mcp_list_node_t*)mcp_buffer_pool_acquire(g_list_pool->node_pool);
-    if (!node) {
-        // If memory pool is full, fall back to using malloc
-        return (mcp_list_node_t*)malloc(sizeof(mcp_list_node_t));
-    }
-
-    return node;
+    return (mcp_list_node_t*)malloc(sizeof(mcp_list_node_t));
 }
 
-// Free node back to memory pool
 static void mcp_list_node_free(mcp_list_node_t* node) {
-    if (!node) return;
-
-    if (g_list_pool && g_list_pool->node_pool) {
-        // Try to release to memory pool
-        mcp_buffer_pool_release(g_list_pool->node_pool, node);
-    } else {
-        // If no memory pool, free directly
-        free(node);
-    }
+    free(node);
 }
 
 mcp_list_t* mcp_list_create(mcp_list_thread_safety_t thread_safety) {
-    // Initialize memory pool
-    if (!mcp_list_pool_get()) {
-        mcp_log_error("Failed to initialize list memory pool");
-        // Continue execution, will fall back to using malloc
-    }
-
     mcp_list_t* list = (mcp_list_t*)malloc(sizeof(mcp_list_t));
     if (!list) {
         mcp_log_error("Failed to allocate list structure");
-        mcp_list_pool_release();
         return NULL;
     }
 
@@ -127,7 +52,6 @@ mcp_list_t* mcp_list_create(mcp_list_thread_safety_t thread_safety) {
         if (!list->mutex) {
             mcp_log_error("Failed to create list mutex");
             free(list);
-            mcp_list_pool_release();
             return NULL;
         }
     } else {
@@ -151,9 +75,6 @@ void mcp_list_destroy(mcp_list_t* list, void (*free_data)(void*)) {
     }
 
     free(list);
-
-    // Release memory pool reference
-    mcp_list_pool_release();
 }
 
 mcp_list_node_t* mcp_list_push_front(mcp_list_t* list, void* data) {
@@ -257,7 +178,7 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
         data = NULL;
     }
 
-    // Free node back to memory pool
+    // Free node
     mcp_list_node_free(node);
 
     return data;
@@ -286,7 +207,7 @@ void* mcp_list_pop_front(mcp_list_t* list) {
     // Unlock
     MCP_LIST_UNLOCK(list);
 
-    // Free node back to memory pool
+    // Free node
     mcp_list_node_free(node);
 
     return data;
@@ -315,7 +236,7 @@ void* mcp_list_pop_back(mcp_list_t* list) {
     // Unlock
     MCP_LIST_UNLOCK(list);
 
-    // Free node back to memory pool
+    // Free node
     mcp_list_node_free(node);
 
     return data;
@@ -389,7 +310,7 @@ void mcp_list_clear(mcp_list_t* list, void (*free_data)(void*)) {
             free_data(nodes_to_free->data);
         }
 
-        // Free node back to memory pool
+        // Free node
         mcp_list_node_free(nodes_to_free);
         nodes_to_free = next;
     }
-- 
2.43.0


From db752b405a49240dff56754bfaf9d95bfcd53ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:52 +0000
Subject: [PATCH 07/63] fix: thread and object caches return blocks to the
 allocator they came from

---
 src/common/mcp_object_cache.c | 29 +++++++++++++----------------
 src/common/mcp_thread_cache.c | 16 +++++++++-------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index ed49ed8..f6ff1c2 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -220,6 +220,8 @@ bool mcp_object_cache_init(mcp_object_cache_type_t type, const mcp_object_cache_
         if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
         if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+        if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+        if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
         if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
             tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
         }
@@ -286,8 +288,9 @@ void* mcp_object_cache_alloc(mcp_object_cache_type_t type, size_t size) {
     // Increment operation counter for adaptive sizing
     ATOMIC_INCREMENT(tls_operations_since_adjustment[type]);
 
-    // Fast path: Check if we have a cached object
-    if (tls_object_counts[type] > 0) {
+    // Fast path: Check if we have a cached object that is large enough
+    if (tls_object_counts[type] > 0 &&
+        mcp_pool_get_block_size(tls_object_caches[type][tls_object_counts[type] - 1]) >= aligned_size) {
         void* ptr = tls_object_caches[type][--tls_object_counts[type]];
         ATOMIC_INCREMENT(tls_cache_hits[type]);
 
@@ -358,15 +361,17 @@ void mcp_object_cache_free(mcp_object_cache_type_t type, void* ptr, size_t size)
         tls_destructors[type](ptr);
     }
 
+    // Only pool blocks have a known size and can be cached
+    (void)size;
+    size_t block_size = mcp_pool_get_block_size(ptr);
+
     // Fast path: Check if we can cache the object
-    if (tls_object_counts[type] < tls_max_sizes[type]) {
+    if (block_size > 0 && tls_object_counts[type] < tls_max_sizes[type]) {
         tls_object_caches[type][tls_object_counts[type]++] = ptr;
         return;
     }
 
-    // Cache is full, determine if this is a pool block
-    size_t block_size = (size > 0) ? size : mcp_pool_get_block_size(ptr);
-
+    // Cache is full or this is not a pool block
     if (block_size > 0) {
         // It's a pool-allocated block, return it to the pool
         mcp_pool_free(ptr);
@@ -449,6 +454,8 @@ bool mcp_object_cache_configure(mcp_object_cache_type_t type, const mcp_object_c
     if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
     if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+    if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+    if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
     if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
         tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
     }
@@ -520,11 +527,6 @@ void mcp_object_cache_flush(mcp_object_cache_type_t type) {
         for (size_t i = start_idx; i < end_idx; i++) {
             void* ptr = tls_object_caches[type][i];
 
-            // Call destructor if registered
-            if (tls_destructors[type]) {
-                tls_destructors[type](ptr);
-            }
-
             // Free the object based on its source
             if (block_sizes[i - start_idx] > 0) {
                 // It's a pool-allocated block, return it to the pool
@@ -645,11 +647,6 @@ static bool adjust_cache_size(mcp_object_cache_type_t type) {
                 for (size_t i = batch_start; i < batch_end; i++) {
                     void* ptr = tls_object_caches[type][i];
 
-                    // Call destructor if registered
-                    if (tls_destructors[type]) {
-                        tls_destructors[type](ptr);
-                    }
-
                     // Free the object based on its source
                     if (block_sizes[i - batch_start] > 0) {
                         // It's a pool-allocated block, return it to the pool
diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index f32a1a6..bdc6977 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -425,6 +425,8 @@ bool mcp_thread_cache_init_with_config(const mcp_thread_cache_config_t* config)
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     // Enable LRU by default
@@ -716,14 +718,12 @@ void mcp_thread_cache_free(void* ptr, size_t size) {
     // Increment operation counter for adaptive sizing
     tls_operations_since_adjustment++;
 
-    // If size is 0, try to determine it from the block
+    // Only pool blocks are cached: a cached block is reused for any size of its
+    // class, so it must really be that large whatever size the caller gave.
+    size = mcp_pool_get_block_size(ptr);
     if (size == 0) {
-        size = mcp_pool_get_block_size(ptr);
-        // If we still don't know the size, we can't cache it
-        if (size == 0) {
-            free(ptr);
-            return;
-        }
+        free(ptr);
+        return;
     }
 
     // Fast path for small blocks (most common case)
@@ -1032,6 +1032,8 @@ bool mcp_thread_cache_configure(const mcp_thread_cache_config_t* config) {
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     mcp_log_debug("Thread-local cache reconfigured for thread %lu: LRU %s, adaptive sizing %s",
-- 
2.43.0


From 0b96dc3bf27580fa90b0f3d7ee6bef106eac985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 08/63] fix: basic rate limiter windows have their full length
 and survive failed growth

---
 include/mcp_sys_utils.h       | 11 ++++++++++
 src/common/mcp_sys_utils.c    | 11 ++++++++++
 src/server/mcp_rate_limiter.c | 41 +++++++++++++++++++----------------
 3 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/include/mcp_sys_utils.h b/include/mcp_sys_utils.h
index a36bf50..c47a87a 100644
--- a/include/mcp_sys_utils.h
+++ b/include/mcp_sys_utils.h
@@ -44,6 +44,17 @@ void mcp_sleep_ms(uint32_t milliseconds);
  */
 long long mcp_get_time_ms(void);
 
+/**
+ * @brief Get a monotonic time in milliseconds.
+ *
+ * Unlike mcp_get_time_ms() the returned value never jumps when the system time
+ * is changed. It has no relation to the calendar and is only meaningful within
+ * the running process.
+ *
+ * @return Milliseconds since an arbitrary fixed point in time.
+ */
+long long mcp_get_monotonic_ms(void);
+
 /**
  * @brief Calculate the elapsed time between two timestamps.
  * 
diff --git a/src/common/mcp_sys_utils.c b/src/common/mcp_sys_utils.c
index e3864bd..1a9e08b 100644
--- a/src/common/mcp_sys_utils.c
+++ b/src/common/mcp_sys_utils.c
@@ -17,6 +17,7 @@
 #else
 #include <unistd.h>
 #include <sys/time.h>
+#include <time.h>
 #endif
 
 void mcp_sleep_ms(uint32_t milliseconds) {
@@ -39,6 +40,16 @@ long long mcp_get_time_ms(void) {
 #endif
 }
 
+long long mcp_get_monotonic_ms(void) {
+#ifdef _WIN32
+    return (long long)GetTickCount64();
+#else
+    struct timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return ((long long)ts.tv_sec * 1000) + (ts.tv_nsec / 1000000);
+#endif
+}
+
 long long mcp_time_elapsed_ms(long long start_time, long long end_time) {
     // Handle potential overflow/wraparound
     if (end_time >= start_time) {
diff --git a/src/server/mcp_rate_limiter.c b/src/server/mcp_rate_limiter.c
index 890775a..022b003 100644
--- a/src/server/mcp_rate_limiter.c
+++ b/src/server/mcp_rate_limiter.c
@@ -2,6 +2,7 @@
 #include "mcp_types.h"
 #include "mcp_string_utils.h"
 #include "mcp_sync.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -18,7 +19,7 @@
  */
 typedef struct rate_limit_entry {
     char* client_id;                /**< Client identifier (malloc'd string) */
-    time_t window_start_time;       /**< Timestamp when the current window started */
+    long long window_start_time;    /**< Monotonic time (ms) when the current window started */
     size_t request_count;           /**< Number of requests received in the current window */
     struct rate_limit_entry* next;  /**< Pointer for separate chaining */
 } rate_limit_entry_t;
@@ -89,24 +90,26 @@ static rate_limit_entry_t* find_or_create_entry(mcp_rate_limiter_t* limiter, con
             limiter->capacity * 2;
 
         rate_limit_entry_t** new_buckets = (rate_limit_entry_t**)calloc(new_capacity, sizeof(rate_limit_entry_t*));
-        if (!new_buckets) return NULL; // Resize allocation failed
-
-        // Rehash existing entries
-        for (size_t i = 0; i < limiter->capacity; ++i) {
-            rate_limit_entry_t* entry = limiter->buckets[i];
-            while (entry) {
-                rate_limit_entry_t* next = entry->next;
-                unsigned long new_hash = hash_client_id(entry->client_id);
-                size_t new_index = new_hash % new_capacity;
-                entry->next = new_buckets[new_index];
-                new_buckets[new_index] = entry;
-                entry = next;
+        if (new_buckets) {
+            // Rehash existing entries
+            for (size_t i = 0; i < limiter->capacity; ++i) {
+                rate_limit_entry_t* entry = limiter->buckets[i];
+                while (entry) {
+                    rate_limit_entry_t* next = entry->next;
+                    unsigned long new_hash = hash_client_id(entry->client_id);
+                    size_t new_index = new_hash % new_capacity;
+                    entry->next = new_buckets[new_index];
+                    new_buckets[new_index] = entry;
+                    entry = next;
+                }
             }
-        }
 
-        free(limiter->buckets);
-        limiter->buckets = new_buckets;
-        limiter->capacity = new_capacity;
+            free(limiter->buckets);
+            limiter->buckets = new_buckets;
+            limiter->capacity = new_capacity;
+        } else if (limiter->capacity == 0) {
+            return NULL; // Nothing to fall back to
+        } // Otherwise keep using the table as it is
     }
 
     // Find existing entry
@@ -252,11 +255,11 @@ bool mcp_rate_limiter_check(mcp_rate_limiter_t* limiter, const char* client_id)
     }
 
     // Get current time
-    time_t current_time = time(NULL);
+    long long current_time = mcp_get_monotonic_ms();
     bool allowed = false;
 
     // Check if we need to start a new window
-    if (created || current_time >= entry->window_start_time + (time_t)limiter->window_seconds) {
+    if (created || current_time >= entry->window_start_time + (long long)limiter->window_seconds * 1000) {
         // Start a new window
         entry->window_start_time = current_time;
         entry->request_count = 1; // This is the first request in the new window
-- 
2.43.0


From 7a57b6f3280da48858113410481eb203f7ba642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 09/63] fix: resource cache copies entries under its lock and
 frees what it drops

---
 src/server/mcp_cache.c | 402 +++++++++--------------------------------
 1 file changed, 89 insertions(+), 313 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 6ae64a8..f86ebb5 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -16,6 +16,7 @@
 #include "mcp_rwlock.h"
 #include "mcp_object_pool.h"
 #include "mcp_list.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
@@ -31,10 +32,11 @@ typedef struct {
     char* key;                   // Duplicate of the key (URI) for LRU list
     mcp_content_item_t** content;// Value (array of pointers to copies, malloc'd)
     size_t content_count;        // Number of items in the content array
-    time_t expiry_time;          // Absolute expiration time (0 for never expires)
-    time_t last_accessed;        // For LRU eviction
+    long long expiry_time;       // Monotonic expiration time in ms (0 for never expires)
+    long long last_accessed;     // Monotonic time in ms
     bool is_pooled;              // Flag to indicate if content items are from a pool
     mcp_list_node_t* lru_node;   // Pointer to this entry's node in the LRU list
+    mcp_resource_cache_t* cache; // Cache the entry belongs to
 } mcp_cache_entry_t;
 
 /**
@@ -52,23 +54,7 @@ struct mcp_resource_cache {
     mcp_object_pool_t* pool;     // Object pool for content items
 };
 
-// Free function for cache entries (used by hash table)
-static void free_cache_entry(void* value) {
-    mcp_cache_entry_t* entry = (mcp_cache_entry_t*)value;
-    if (!entry)
-        return;
-
-    // Free the key duplicate used for LRU list
-    free(entry->key);
-
-    // Just free the entry structure and the content array
-    // The actual content items are handled separately in cleanup_cache_entry
-    if (entry->content) {
-        free(entry->content);
-    }
-
-    free(entry);
-}
+static void free_cache_entry(void* value);
 
 mcp_resource_cache_t* mcp_cache_create(size_t capacity, time_t default_ttl_seconds) {
     if (capacity == 0) {
@@ -153,33 +139,29 @@ static void cleanup_cache_entry_content(mcp_resource_cache_t* cache, mcp_cache_e
     }
 }
 
-// Helper function to clean up all entries in the cache
-static void cleanup_all_cache_entries(mcp_resource_cache_t* cache) {
-    if (!cache || !cache->table)
+// Free function for cache entries (used by hash table)
+static void free_cache_entry(void* value) {
+    mcp_cache_entry_t* entry = (mcp_cache_entry_t*)value;
+    if (!entry)
         return;
 
-    // Iterate through all buckets
-    for (size_t i = 0; i < cache->table->capacity; i++) {
-        mcp_hashtable_entry_t* bucket_entry = cache->table->buckets[i];
-        while (bucket_entry) {
-            mcp_hashtable_entry_t* next = bucket_entry->next;
-            mcp_cache_entry_t* entry = (mcp_cache_entry_t*)bucket_entry->value;
-
-            // Clean up the entry's content items
-            cleanup_cache_entry_content(cache, entry);
-
-            bucket_entry = next;
-        }
+    // Take the entry out of the LRU list
+    if (entry->lru_node) {
+        mcp_list_remove(entry->cache->lru_list, entry->lru_node, NULL);
+        entry->lru_node = NULL;
     }
+
+    // Release the content items, then the entry itself
+    cleanup_cache_entry_content(entry->cache, entry);
+    free(entry->content);
+    free(entry->key);
+    free(entry);
 }
 
 void mcp_cache_destroy(mcp_resource_cache_t* cache) {
     if (!cache)
         return;
 
-    // Clean up all entries first
-    cleanup_all_cache_entries(cache);
-
     // Destroy hash table (which will free all entries)
     if (cache->table) {
         mcp_hashtable_destroy(cache->table);
@@ -215,10 +197,11 @@ static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds
     // Initialize entry
     entry->content = NULL;
     entry->content_count = 0;
-    entry->last_accessed = time(NULL);
+    entry->cache = cache;
+    entry->last_accessed = mcp_get_monotonic_ms();
     time_t effective_ttl = (ttl_seconds == 0) ? cache->default_ttl_seconds : (time_t)ttl_seconds;
     // 0 means never expires
-    entry->expiry_time = (effective_ttl < 0) ? 0 : entry->last_accessed + effective_ttl;
+    entry->expiry_time = (effective_ttl <= 0) ? 0 : entry->last_accessed + (long long)effective_ttl * 1000;
     // Mark as pooled since we're using the pool
     entry->is_pooled = true;
     // Will be set after adding to LRU list
@@ -236,20 +219,6 @@ static void update_lru_position(mcp_resource_cache_t* cache, mcp_cache_entry_t*
     mcp_list_move_to_front(cache->lru_list, entry->lru_node);
 }
 
-// Helper function to clean up a cache entry and its resources
-static void free_entry_resources(mcp_resource_cache_t* cache, mcp_cache_entry_t* entry) {
-    if (!cache || !entry)
-        return;
-
-    // Clean up content items
-    cleanup_cache_entry_content(cache, entry);
-
-    // Free the entry's resources
-    free(entry->key);
-    free(entry->content);
-    // The entry itself will be freed by the hash table's free function
-}
-
 // Helper function to add an entry to the LRU list and hash table
 static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_cache_entry_t* entry) {
     if (!cache || !uri || !entry)
@@ -262,7 +231,8 @@ static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_
     }
 
     // Add entry to hash table (this will replace any existing entry with the same key)
-    // mcp_hashtable_put takes ownership of the 'entry' pointer if successful
+    // mcp_hashtable_put takes ownership of the 'entry' pointer if successful and
+    // frees the replaced entry together with its LRU node and content
     return mcp_hashtable_put(cache->table, uri, entry);
 }
 
@@ -287,10 +257,7 @@ static bool evict_lru_entry(mcp_resource_cache_t* cache) {
 
     mcp_log_debug("Evicting LRU cache entry with key '%s'", key_to_evict);
 
-    // Remove the entry from the LRU list
-    mcp_list_remove(cache->lru_list, lru_node, NULL);
-
-    // Remove the entry from the hash table
+    // Remove the entry from the hash table, which also frees it and its LRU node
     return mcp_hashtable_remove(cache->table, key_to_evict) == 0;
 }
 
@@ -298,224 +265,72 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     if (!cache || !uri || !pool || !content || !content_count)
         return -1;
 
-    // Store the pool for future use
-    cache->pool = pool;
-
     *content = NULL;
     *content_count = 0;
     int result = -1; // Default to not found/expired
     PROFILE_START("mcp_cache_get");
 
-    // Local variables to store entry information outside the lock
-    mcp_content_item_t** content_copy_ptrs = NULL;
-    size_t entry_content_count = 0;
-    bool is_expired = false;
-    mcp_cache_entry_t* entry = NULL;
-    time_t now = time(NULL);
-
-    // First acquire read lock to check if entry exists and is valid
-    mcp_rwlock_read_lock(cache->rwlock);
-
-    // Try to get the entry from the hash table
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Cache hit and valid! Store information for later use
-            entry_content_count = entry->content_count;
-        } else {
-            // Entry is expired
-            is_expired = true;
-        }
-    }
+    // The whole lookup runs under the lock: the entry and its content may be
+    // replaced or freed as soon as the lock is released
+    mcp_rwlock_write_lock(cache->rwlock);
+    cache->pool = pool;
 
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
+    mcp_cache_entry_t* entry = NULL;
+    long long now = mcp_get_monotonic_ms();
 
-    // If entry not found or expired, handle accordingly
-    if (!entry) {
+    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) != 0 || entry == NULL) {
         // Entry not found
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    if (is_expired) {
-        // Entry is expired, acquire write lock to remove it
-        mcp_rwlock_write_lock(cache->rwlock);
-
-        // Double-check that the entry is still in the cache and still expired
-        if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-            if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                // Remove from LRU list first
-                if (entry->lru_node) {
-                    mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                }
-                mcp_hashtable_remove(cache->table, uri);
-            }
-        }
-
         mcp_rwlock_write_unlock(cache->rwlock);
         PROFILE_END("mcp_cache_get");
         return -1;
     }
 
-    // Entry is valid, allocate memory for content copies
-    content_copy_ptrs = (mcp_content_item_t**)malloc(entry_content_count * sizeof(mcp_content_item_t*));
-    if (!content_copy_ptrs) {
-        // Memory allocation failed
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // We need to make a copy of the entry's content for processing outside the lock
-    mcp_content_item_t** entry_content_copies = NULL;
-    size_t actual_content_count = 0;
-
-    // Acquire read lock to copy entry content information
-    mcp_rwlock_read_lock(cache->rwlock);
-
-    // Double-check that the entry is still in the cache and still valid
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration again (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Make a temporary copy of the content pointers and count
-            actual_content_count = entry->content_count;
-            entry_content_copies = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
-
-            if (entry_content_copies) {
-                // Copy the content pointers
-                for (size_t i = 0; i < actual_content_count; ++i) {
-                    entry_content_copies[i] = entry->content[i];
-                }
-            }
-        } else {
-            // Entry expired between our checks
-            is_expired = true;
-        }
-    } else {
-        // Entry was removed between our checks
-        entry = NULL;
-    }
-
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
-
-    // If entry was removed or expired, clean up and return
-    if (!entry || is_expired || !entry_content_copies) {
-        free(content_copy_ptrs);
-        free(entry_content_copies);
-
-        // If entry expired, remove it
-        if (entry && is_expired) {
-            mcp_rwlock_write_lock(cache->rwlock);
-
-            // Double-check again that the entry is still in the cache and still expired
-            if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-                if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                    // Remove from LRU list first
-                    if (entry->lru_node) {
-                        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                    }
-                    mcp_hashtable_remove(cache->table, uri);
-                }
-            }
-
-            mcp_rwlock_write_unlock(cache->rwlock);
-        }
-
+    // Check expiration (0 means never expires)
+    if (entry->expiry_time != 0 && now >= entry->expiry_time) {
+        mcp_hashtable_remove(cache->table, uri);
+        mcp_rwlock_write_unlock(cache->rwlock);
         PROFILE_END("mcp_cache_get");
         return -1;
     }
 
-    // Now process the content outside the lock
+    // Entry is valid, copy its content items
+    mcp_content_item_t** content_copy_ptrs = (mcp_content_item_t**)malloc(entry->content_count * sizeof(mcp_content_item_t*));
     size_t copied_count = 0;
-    bool copy_error = false;
-
-    // Copy content items
-    for (size_t i = 0; i < actual_content_count; ++i) {
-        // Validate content item before copying
-        if (!entry_content_copies[i]) {
-            mcp_log_error("NULL content item at index %zu in cache entry", i);
-            copy_error = true;
-            break;
-        }
-
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = entry_content_copies[i]->mime_type ? entry_content_copies[i]->mime_type : "";
-
-        // Acquire a pooled item and copy data into it
-        content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
-            pool,
-            entry_content_copies[i]->type,
-            mime_type,
-            entry_content_copies[i]->data,
-            entry_content_copies[i]->data_size
-        );
-        if (!content_copy_ptrs[i]) {
-            copy_error = true;
-            break; // Exit loop on acquisition/copy failure
-        }
-        copied_count++;
-    }
-
-    // Free the temporary copy of content pointers
-    free(entry_content_copies);
-
-    if (copy_error) {
-        // Release partially acquired/copied items back to pool on error
-        for (size_t i = 0; i < copied_count; ++i) {
-            if (content_copy_ptrs[i]) {
-                cleanup_content_item(cache, content_copy_ptrs[i]);
+    if (content_copy_ptrs) {
+        for (; copied_count < entry->content_count; ++copied_count) {
+            mcp_content_item_t* item = entry->content[copied_count];
+
+            // Acquire a pooled item and copy data into it
+            content_copy_ptrs[copied_count] = mcp_content_item_acquire_pooled(
+                pool,
+                item->type,
+                item->mime_type ? item->mime_type : "",
+                item->data,
+                item->data_size
+            );
+            if (!content_copy_ptrs[copied_count]) {
+                break; // Exit loop on acquisition/copy failure
             }
         }
-        free(content_copy_ptrs);
-        PROFILE_END("mcp_cache_get");
-        return -1;
     }
 
-    // Now acquire write lock to update LRU position
-    mcp_rwlock_write_lock(cache->rwlock);
-
-    // Double-check that the entry is still in the cache and still valid
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration again (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Return the array of pointers to pooled items
-            *content = content_copy_ptrs;
-            *content_count = actual_content_count;
-            // Update last accessed time
-            entry->last_accessed = now;
-
-            // Update LRU position (move to front of list)
-            update_lru_position(cache, entry);
-
-            result = 0;
-        } else {
-            // Entry expired between our checks, remove it
-            if (entry->lru_node) {
-                mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-            }
-            mcp_hashtable_remove(cache->table, uri);
+    if (content_copy_ptrs && copied_count == entry->content_count) {
+        // Return the array of pointers to pooled items
+        *content = content_copy_ptrs;
+        *content_count = copied_count;
 
-            // Release acquired items back to pool
-            for (size_t i = 0; i < copied_count; ++i) {
-                if (content_copy_ptrs[i]) {
-                    cleanup_content_item(cache, content_copy_ptrs[i]);
-                }
-            }
-            free(content_copy_ptrs);
-        }
+        // Update last accessed time and LRU position (move to front of list)
+        entry->last_accessed = now;
+        update_lru_position(cache, entry);
+        result = 0;
     } else {
-        // Entry was removed between our checks
-        // Release acquired items back to pool
+        // Release partially acquired/copied items back to pool on error
         for (size_t i = 0; i < copied_count; ++i) {
-            if (content_copy_ptrs[i]) {
-                cleanup_content_item(cache, content_copy_ptrs[i]);
-            }
+            cleanup_content_item(cache, content_copy_ptrs[i]);
         }
         free(content_copy_ptrs);
     }
 
-    // Release write lock
     mcp_rwlock_write_unlock(cache->rwlock);
     PROFILE_END("mcp_cache_get");
     return result;
@@ -544,9 +359,6 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return 0;
     }
 
-    // Store the pool for future use
-    cache->pool = pool;
-
     PROFILE_START("mcp_cache_put");
 
     // First, prepare the entry and content outside the lock
@@ -581,12 +393,6 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         );
         if (!entry->content[i]) {
             copy_error = true;
-            // Release already acquired/copied items back to pool
-            for(size_t j = 0; j < i; ++j) {
-                if (entry->content[j]) {
-                    cleanup_content_item(cache, entry->content[j]);
-                }
-            }
             // Exit loop on acquisition/copy failure
             break;
         }
@@ -595,9 +401,12 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     }
 
     if (copy_error) {
-        // Use free_entry_resources to ensure all resources are properly cleaned up
-        free_entry_resources(cache, entry);
-        free(entry);
+        // Release already acquired/copied items back to pool
+        for (size_t i = 0; i < entry->content_count; ++i) {
+            mcp_content_item_release_pooled(pool, entry->content[i]);
+        }
+        entry->content_count = 0;
+        free_cache_entry(entry);
         PROFILE_END("mcp_cache_put");
         return -1;
     }
@@ -605,37 +414,26 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     // Now that we have prepared the entry, acquire the write lock
     mcp_rwlock_write_lock(cache->rwlock);
 
-    // Check if the key already exists
-    mcp_cache_entry_t* existing_entry = NULL;
-    bool key_exists = mcp_hashtable_get(cache->table, uri, (void**)&existing_entry) == 0 && existing_entry != NULL;
+    cache->pool = pool;
+
+    // Add entry to LRU list and hash table
+    int result = add_entry_to_cache(cache, uri, entry);
+    if (result != 0) {
+        // Failed to add to cache, clean up the entry
+        free_cache_entry(entry);
+    }
 
     // --- LRU Eviction Logic ---
-    if (!key_exists && mcp_hashtable_size(cache->table) >= cache->capacity) {
-        mcp_log_warn("Cache full (capacity: %zu). Evicting LRU entry to insert '%s'.", cache->capacity, uri);
+    // The new entry is at the front of the LRU list and is not the one evicted
+    while (mcp_hashtable_size(cache->table) > cache->capacity) {
+        mcp_log_debug("Cache full (capacity: %zu). Evicting LRU entry after inserting '%s'.", cache->capacity, uri);
         if (!evict_lru_entry(cache)) {
             mcp_log_error("Cache full but failed to evict LRU entry.");
-            mcp_rwlock_write_unlock(cache->rwlock);
-            free_entry_resources(cache, entry);
-            free(entry);
-            PROFILE_END("mcp_cache_put");
-            return -1;
+            break;
         }
     }
     // --- End LRU Eviction Logic ---
 
-    // If the key exists, we need to remove the old entry from the LRU list
-    if (key_exists && existing_entry && existing_entry->lru_node) {
-        mcp_list_remove(cache->lru_list, existing_entry->lru_node, NULL);
-    }
-
-    // Add entry to LRU list and hash table
-    int result = add_entry_to_cache(cache, uri, entry);
-    if (result != 0) {
-        // Failed to add to cache, clean up the entry
-        free_entry_resources(cache, entry);
-        free(entry);
-    }
-
     // Release write lock
     mcp_rwlock_write_unlock(cache->rwlock);
     PROFILE_END("mcp_cache_put");
@@ -654,15 +452,7 @@ int mcp_cache_invalidate(mcp_resource_cache_t* cache, const char* uri) {
     // Get the entry first so we can clean it up properly
     mcp_cache_entry_t* entry = NULL;
     if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Remove from LRU list first
-        if (entry->lru_node) {
-            mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-        }
-
-        // Clean up the entry's content items
-        cleanup_cache_entry_content(cache, entry);
-
-        // Now remove it from the hash table
+        // Remove it from the hash table
         // mcp_hashtable_remove calls the value free function (free_cache_entry)
         result = mcp_hashtable_remove(cache->table, uri);
     }
@@ -679,7 +469,7 @@ int mcp_cache_invalidate(mcp_resource_cache_t* cache, const char* uri) {
  * that collects expired keys during cache pruning.
  */
 typedef struct {
-    time_t now;                        // Current time for expiration check
+    long long now;                     // Current monotonic time for expiration check
     char** keys_to_remove;             // Array of keys to remove
     mcp_cache_entry_t** entries_to_cleanup; // Array of entries to clean up
     size_t* keys_count;                // Pointer to count of keys
@@ -763,7 +553,7 @@ size_t mcp_cache_prune_expired(mcp_resource_cache_t* cache) {
         return 0;
 
     size_t removed_count = 0;
-    time_t now = time(NULL);
+    long long now = mcp_get_monotonic_ms();
 
     // We need to collect keys to remove since we can't modify the hash table during iteration
     char** keys_to_remove = NULL;
@@ -807,33 +597,19 @@ size_t mcp_cache_prune_expired(mcp_resource_cache_t* cache) {
     // Iterate through all entries to find expired ones
     mcp_hashtable_foreach(cache->table, collect_expired_keys, &callback_data);
 
-    // If memory allocation failed during callback, clean up and return
-    if (error) {
-        mcp_log_error("Memory allocation failed during cache pruning");
-        goto cleanup;
-    }
-
     // Update keys_to_remove pointer in case realloc changed it
     keys_to_remove = callback_data.keys_to_remove;
     entries_to_cleanup = callback_data.entries_to_cleanup;
 
+    // If memory allocation failed during callback, remove what was collected
+    if (error) {
+        mcp_log_error("Memory allocation failed during cache pruning");
+    }
+
     // Clean up and remove all collected expired entries
     for (size_t i = 0; i < keys_count; i++) {
         if (keys_to_remove[i] && entries_to_cleanup[i]) {
-            // Remove from LRU list first
-            if (entries_to_cleanup[i]->lru_node) {
-                if (mcp_list_remove(cache->lru_list, entries_to_cleanup[i]->lru_node, NULL) != 0) {
-                    // Error removing from LRU list, but continue with other entries
-                    mcp_log_error("Failed to remove entry from LRU list in prune_expired");
-                    error = 1;
-                    // Don't continue - still try to clean up content and remove from hash table
-                }
-            }
-
-            // Clean up the entry's content items
-            cleanup_cache_entry_content(cache, entries_to_cleanup[i]);
-
-            // Now remove it from the hash table
+            // Remove it from the hash table, which also frees the entry
             if (mcp_hashtable_remove(cache->table, keys_to_remove[i]) != 0) {
                 // Error removing from hash table, but continue with other entries
                 mcp_log_error("Failed to remove entry from hash table in prune_expired");
-- 
2.43.0


From efc480ec3c31cea7e806632d595d14811defd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:44 +0000
Subject: [PATCH 10/63] fix: advanced rate limiter keeps its bounds under
 concurrent checks and rule changes

---
 src/server/mcp_advanced_rate_limiter.c | 298 ++++++++++---------------
 1 file changed, 118 insertions(+), 180 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 1d5de61..9ad8468 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -3,6 +3,7 @@
 #include "mcp_string_utils.h"
 #include "mcp_rwlock.h"
 #include "mcp_log.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -33,7 +34,7 @@
  * @brief Client tracking entry for fixed window algorithm.
  */
 typedef struct {
-    time_t window_start_time;   /**< Start time of the current window. */
+    long long window_start_time; /**< Start time of the current window. */
     size_t request_count;       /**< Number of requests in the current window. */
 } fixed_window_data_t;
 
@@ -42,7 +43,7 @@ typedef struct {
  * @brief Client tracking entry for sliding window algorithm.
  */
 typedef struct {
-    time_t last_request_time;   /**< Time of the last request. */
+    long long last_request_time; /**< Time of the last request. */
     double* request_times;      /**< Circular buffer of request timestamps. */
     size_t buffer_size;         /**< Size of the circular buffer. */
     size_t buffer_pos;          /**< Current position in the circular buffer. */
@@ -55,7 +56,7 @@ typedef struct {
  */
 typedef struct {
     double tokens;              /**< Current number of tokens in the bucket. */
-    time_t last_refill_time;    /**< Time of the last token refill. */
+    long long last_refill_time; /**< Time of the last token refill. */
     double tokens_per_second;   /**< Rate at which tokens are added to the bucket. */
     size_t max_tokens;          /**< Maximum number of tokens the bucket can hold. */
 } token_bucket_data_t;
@@ -66,7 +67,7 @@ typedef struct {
  */
 typedef struct {
     double water_level;         /**< Current water level in the bucket. */
-    time_t last_leak_time;      /**< Time of the last leak. */
+    long long last_leak_time;   /**< Time of the last leak. */
     double leak_rate_per_second;/**< Rate at which water leaks from the bucket. */
     size_t burst_capacity;      /**< Maximum capacity of the bucket. */
 } leaky_bucket_data_t;
@@ -138,10 +139,10 @@ static client_entry_t* find_or_create_client_entry(mcp_advanced_rate_limiter_t*
                                                  const char* key,
                                                  mcp_rate_limit_key_type_t key_type,
                                                  bool* created);
-static bool check_fixed_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
-static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
-static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
-static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
+static bool check_fixed_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time);
+static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time);
+static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time);
+static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time);
 static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule);
 static void cleanup_algorithm_data(client_entry_t* entry);
 static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter_t* limiter,
@@ -232,12 +233,12 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
     // Initialize based on algorithm type
     switch (rule->algorithm) {
         case MCP_RATE_LIMIT_FIXED_WINDOW:
-            entry->data.fixed_window.window_start_time = time(NULL);
+            entry->data.fixed_window.window_start_time = mcp_get_monotonic_ms();
             entry->data.fixed_window.request_count = 0;
             break;
 
         case MCP_RATE_LIMIT_SLIDING_WINDOW:
-            entry->data.sliding_window.last_request_time = time(NULL);
+            entry->data.sliding_window.last_request_time = mcp_get_monotonic_ms();
             entry->data.sliding_window.request_count = 0;
             entry->data.sliding_window.buffer_size = rule->max_requests_per_window;
             entry->data.sliding_window.buffer_pos = 0;
@@ -246,20 +247,24 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
             entry->data.sliding_window.request_times =
                 (double*)calloc(rule->max_requests_per_window, sizeof(double));
             if (!entry->data.sliding_window.request_times) {
+                entry->data.sliding_window.buffer_size = 0;
                 return false;
             }
+            for (size_t i = 0; i < rule->max_requests_per_window; i++) {
+                entry->data.sliding_window.request_times[i] = -1; // Unused slot
+            }
             break;
 
         case MCP_RATE_LIMIT_TOKEN_BUCKET:
             entry->data.token_bucket.tokens = (double)rule->max_tokens; // Start with a full bucket
-            entry->data.token_bucket.last_refill_time = time(NULL);
+            entry->data.token_bucket.last_refill_time = mcp_get_monotonic_ms();
             entry->data.token_bucket.tokens_per_second = rule->tokens_per_second;
             entry->data.token_bucket.max_tokens = rule->max_tokens;
             break;
 
         case MCP_RATE_LIMIT_LEAKY_BUCKET:
             entry->data.leaky_bucket.water_level = 0; // Start with an empty bucket
-            entry->data.leaky_bucket.last_leak_time = time(NULL);
+            entry->data.leaky_bucket.last_leak_time = mcp_get_monotonic_ms();
             entry->data.leaky_bucket.leak_rate_per_second = rule->leak_rate_per_second;
             entry->data.leaky_bucket.burst_capacity = rule->burst_capacity;
             break;
@@ -289,6 +294,17 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
     size_t pattern_len = strlen(pattern);
     size_t key_len = strlen(key);
 
+    // Check for contains match: pattern starts and ends with *
+    if (pattern_len > 2 && pattern[0] == '*' && pattern[pattern_len - 1] == '*') {
+        // Search for the substring between the * at start and end
+        size_t substring_len = pattern_len - 2;
+        for (size_t i = 0; i + substring_len <= key_len; i++) {
+            if (strncmp(key + i, pattern + 1, substring_len) == 0)
+                return true;
+        }
+        return false;
+    }
+
     // Check for prefix match: pattern ends with *
     if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
         // Compare all characters except the trailing *
@@ -304,22 +320,6 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
         }
     }
 
-    // Check for contains match: pattern starts and ends with *
-    if (pattern_len > 2 && pattern[0] == '*' && pattern[pattern_len - 1] == '*') {
-        // Extract the substring to search for
-        char* substring = (char*)malloc(pattern_len - 1);
-        if (!substring)
-            return false;
-
-        // Copy the substring (without the * at start and end)
-        strncpy(substring, pattern + 1, pattern_len - 2);
-        substring[pattern_len - 2] = '\0';
-
-        bool result = strstr(key, substring) != NULL;
-        free(substring);
-        return result;
-    }
-
     return false;
 }
 
@@ -343,7 +343,7 @@ static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter
         // Check if the key matches the rule's pattern
         if (rule->rule.key_pattern == NULL || key_matches_pattern(key, rule->rule.key_pattern)) {
             // If this rule has higher priority than our current best match, use it
-            if (rule->rule.priority > highest_priority) {
+            if (!best_match || rule->rule.priority > highest_priority) {
                 best_match = &rule->rule;
                 highest_priority = rule->rule.priority;
             }
@@ -479,14 +479,14 @@ static client_entry_t* find_or_create_client_entry(mcp_advanced_rate_limiter_t*
  * @internal
  * @brief Checks if a request is allowed using the fixed window algorithm.
  */
-static bool check_fixed_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time) {
+static bool check_fixed_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time) {
     if (!entry || !rule)
         return false;
 
     fixed_window_data_t* data = &entry->data.fixed_window;
 
     // Check if we need to start a new window
-    if (current_time - data->window_start_time >= (time_t)rule->window_seconds) {
+    if (current_time - data->window_start_time >= (long long)rule->window_seconds * 1000) {
         // Start a new window
         data->window_start_time = current_time;
         data->request_count = 0;
@@ -507,7 +507,7 @@ static bool check_fixed_window(client_entry_t* entry, const mcp_rate_limit_rule_
  * @internal
  * @brief Checks if a request is allowed using the sliding window algorithm.
  */
-static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time) {
+static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time) {
     if (!entry || !rule)
         return false;
 
@@ -519,11 +519,11 @@ static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rul
     // Remove expired requests from the window
     size_t active_requests = 0;
     for (size_t i = 0; i < data->buffer_size; i++) {
-        if (data->request_times[i] > 0 &&
-            current_time - (time_t)data->request_times[i] < (time_t)rule->window_seconds) {
+        if (data->request_times[i] >= 0 &&
+            current_time - (long long)data->request_times[i] < (long long)rule->window_seconds * 1000) {
             active_requests++;
         } else {
-            data->request_times[i] = 0; // Clear expired request
+            data->request_times[i] = -1; // Clear expired request
         }
     }
 
@@ -544,14 +544,17 @@ static bool check_sliding_window(client_entry_t* entry, const mcp_rate_limit_rul
  * @internal
  * @brief Checks if a request is allowed using the token bucket algorithm.
  */
-static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time) {
+static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time) {
     if (!entry || !rule)
         return false;
 
     token_bucket_data_t* data = &entry->data.token_bucket;
+    data->tokens_per_second = rule->tokens_per_second;
+    data->max_tokens = rule->max_tokens;
+    data->tokens = fmin(data->tokens, (double)data->max_tokens);
 
     // Calculate time since last refill
-    double elapsed_seconds = difftime(current_time, data->last_refill_time);
+    double elapsed_seconds = (double)(current_time - data->last_refill_time) / 1000.0;
 
     // Refill tokens based on elapsed time
     if (elapsed_seconds > 0) {
@@ -575,14 +578,16 @@ static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_
  * @internal
  * @brief Checks if a request is allowed using the leaky bucket algorithm.
  */
-static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time) {
+static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, long long current_time) {
     if (!entry || !rule)
         return false;
 
     leaky_bucket_data_t* data = &entry->data.leaky_bucket;
+    data->leak_rate_per_second = rule->leak_rate_per_second;
+    data->burst_capacity = rule->burst_capacity;
 
     // Calculate time since last leak
-    double elapsed_seconds = difftime(current_time, data->last_leak_time);
+    double elapsed_seconds = (double)(current_time - data->last_leak_time) / 1000.0;
 
     // Leak water based on elapsed time
     if (elapsed_seconds > 0) {
@@ -634,7 +639,7 @@ mcp_advanced_rate_limiter_t* mcp_advanced_rate_limiter_create(const mcp_advanced
     limiter->client_buckets = (client_entry_t**)calloc(limiter->client_capacity, sizeof(client_entry_t*));
     if (!limiter->client_buckets) {
         mcp_log_error("Failed to allocate memory for client hash table");
-        mcp_rwlock_destroy(limiter->lock);
+        mcp_rwlock_free(limiter->lock);
         free(limiter);
         return NULL;
     }
@@ -710,7 +715,7 @@ void mcp_advanced_rate_limiter_destroy(mcp_advanced_rate_limiter_t* limiter) {
 
     // Release lock and destroy it
     mcp_rwlock_write_unlock(limiter->lock);
-    mcp_rwlock_destroy(limiter->lock);
+    mcp_rwlock_free(limiter->lock);
 
     // Free the limiter itself
     free(limiter);
@@ -724,15 +729,16 @@ bool mcp_advanced_rate_limiter_add_rule(mcp_advanced_rate_limiter_t* limiter, co
         return false;
     }
 
+    // Acquire write lock
+    mcp_rwlock_write_lock(limiter->lock);
+
     // Check if we've reached the maximum number of rules for this key type
     if (limiter->rule_counts[rule->key_type] >= MAX_RULES_PER_KEY_TYPE) {
         mcp_log_error("Maximum number of rules reached for key type %d", rule->key_type);
+        mcp_rwlock_write_unlock(limiter->lock);
         return false;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(limiter->lock);
-
     // Create a new rule entry
     rule_entry_t* entry = (rule_entry_t*)malloc(sizeof(rule_entry_t));
     if (!entry) {
@@ -826,6 +832,57 @@ bool mcp_advanced_rate_limiter_remove_rule(mcp_advanced_rate_limiter_t* limiter,
     return found;
 }
 
+/**
+ * @internal
+ * @brief Checks one key of a request. Must be called with the write lock held.
+ *
+ * @return True if a rule matches the key and has decided, false otherwise.
+ */
+static bool check_key(mcp_advanced_rate_limiter_t* limiter,
+                      const char* key,
+                      mcp_rate_limit_key_type_t key_type,
+                      bool* allowed) {
+    if (!key)
+        return false;
+
+    const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, key_type, key);
+    if (!rule)
+        return false;
+
+    *allowed = false;
+    client_entry_t* entry = find_or_create_client_entry(limiter, key, key_type, NULL);
+    if (!entry)
+        return true;
+
+    // The matching rule may have changed since the entry was initialized
+    if (entry->algorithm != rule->algorithm ||
+        (rule->algorithm == MCP_RATE_LIMIT_SLIDING_WINDOW &&
+         entry->data.sliding_window.buffer_size != rule->max_requests_per_window)) {
+        cleanup_algorithm_data(entry);
+        memset(&entry->data, 0, sizeof(entry->data));
+        if (!initialize_algorithm_data(entry, rule))
+            return true;
+    }
+
+    // Check using the appropriate algorithm
+    long long current_time = mcp_get_monotonic_ms();
+    switch (rule->algorithm) {
+        case MCP_RATE_LIMIT_FIXED_WINDOW:
+            *allowed = check_fixed_window(entry, rule, current_time);
+            break;
+        case MCP_RATE_LIMIT_SLIDING_WINDOW:
+            *allowed = check_sliding_window(entry, rule, current_time);
+            break;
+        case MCP_RATE_LIMIT_TOKEN_BUCKET:
+            *allowed = check_token_bucket(entry, rule, current_time);
+            break;
+        case MCP_RATE_LIMIT_LEAKY_BUCKET:
+            *allowed = check_leaky_bucket(entry, rule, current_time);
+            break;
+    }
+    return true;
+}
+
 bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
                                     const char* ip_address,
                                     const char* user_id,
@@ -836,151 +893,32 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         return false;
     }
 
-    // Increment total requests counter
-    limiter->total_requests++;
-
-    // Get current time
-    time_t current_time = time(NULL);
     bool allowed = false;
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(limiter->lock);
-
-    // Check each key type in order of priority
-    if (api_key) {
-        // Check API key first (highest priority)
-        client_entry_t* entry = find_or_create_client_entry(limiter, api_key, MCP_RATE_LIMIT_KEY_API_KEY, NULL);
-        if (entry) {
-            const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_API_KEY, api_key);
-            if (rule) {
-                // Check using the appropriate algorithm
-                switch (rule->algorithm) {
-                    case MCP_RATE_LIMIT_FIXED_WINDOW:
-                        allowed = check_fixed_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_SLIDING_WINDOW:
-                        allowed = check_sliding_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_TOKEN_BUCKET:
-                        allowed = check_token_bucket(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_LEAKY_BUCKET:
-                        allowed = check_leaky_bucket(entry, rule, current_time);
-                        break;
-                }
-
-                // If allowed, we're done
-                if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
-                    limiter->allowed_requests++;
-                    return true;
-                }
-            }
-        }
-    }
+    // Checking changes the tracking data, so the lock must be exclusive
+    mcp_rwlock_write_lock(limiter->lock);
 
-    if (user_id) {
-        // Check user ID next
-        client_entry_t* entry = find_or_create_client_entry(limiter, user_id, MCP_RATE_LIMIT_KEY_USER_ID, NULL);
-        if (entry) {
-            const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_USER_ID, user_id);
-            if (rule) {
-                // Check using the appropriate algorithm
-                switch (rule->algorithm) {
-                    case MCP_RATE_LIMIT_FIXED_WINDOW:
-                        allowed = check_fixed_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_SLIDING_WINDOW:
-                        allowed = check_sliding_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_TOKEN_BUCKET:
-                        allowed = check_token_bucket(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_LEAKY_BUCKET:
-                        allowed = check_leaky_bucket(entry, rule, current_time);
-                        break;
-                }
-
-                // If allowed, we're done
-                if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
-                    limiter->allowed_requests++;
-                    return true;
-                }
-            }
-        }
+    // The key types in order of priority; the first one with a matching rule decides
+    if (!check_key(limiter, api_key, MCP_RATE_LIMIT_KEY_API_KEY, &allowed) &&
+        !check_key(limiter, user_id, MCP_RATE_LIMIT_KEY_USER_ID, &allowed) &&
+        !check_key(limiter, ip_address, MCP_RATE_LIMIT_KEY_IP, &allowed) &&
+        !check_key(limiter, custom_key, MCP_RATE_LIMIT_KEY_CUSTOM, &allowed)) {
+        // No rule matches, the request is denied
+        allowed = false;
     }
 
-    if (ip_address) {
-        // Check IP address next
-        client_entry_t* entry = find_or_create_client_entry(limiter, ip_address, MCP_RATE_LIMIT_KEY_IP, NULL);
-        if (entry) {
-            const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_IP, ip_address);
-            if (rule) {
-                // Check using the appropriate algorithm
-                switch (rule->algorithm) {
-                    case MCP_RATE_LIMIT_FIXED_WINDOW:
-                        allowed = check_fixed_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_SLIDING_WINDOW:
-                        allowed = check_sliding_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_TOKEN_BUCKET:
-                        allowed = check_token_bucket(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_LEAKY_BUCKET:
-                        allowed = check_leaky_bucket(entry, rule, current_time);
-                        break;
-                }
-
-                // If allowed, we're done
-                if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
-                    limiter->allowed_requests++;
-                    return true;
-                }
-            }
-        }
-    }
-
-    if (custom_key) {
-        // Check custom key last
-        client_entry_t* entry = find_or_create_client_entry(limiter, custom_key, MCP_RATE_LIMIT_KEY_CUSTOM, NULL);
-        if (entry) {
-            const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_CUSTOM, custom_key);
-            if (rule) {
-                // Check using the appropriate algorithm
-                switch (rule->algorithm) {
-                    case MCP_RATE_LIMIT_FIXED_WINDOW:
-                        allowed = check_fixed_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_SLIDING_WINDOW:
-                        allowed = check_sliding_window(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_TOKEN_BUCKET:
-                        allowed = check_token_bucket(entry, rule, current_time);
-                        break;
-                    case MCP_RATE_LIMIT_LEAKY_BUCKET:
-                        allowed = check_leaky_bucket(entry, rule, current_time);
-                        break;
-                }
-
-                // If allowed, we're done
-                if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
-                    limiter->allowed_requests++;
-                    return true;
-                }
-            }
-        }
+    // Update the counters
+    limiter->total_requests++;
+    if (allowed) {
+        limiter->allowed_requests++;
+    } else {
+        limiter->denied_requests++;
     }
 
     // Release lock
-    mcp_rwlock_read_unlock(limiter->lock);
+    mcp_rwlock_write_unlock(limiter->lock);
 
-    // If we get here, the request is denied
-    limiter->denied_requests++;
-    return false;
+    return allowed;
 }
 
 bool mcp_advanced_rate_limiter_get_stats(mcp_advanced_rate_limiter_t* limiter,
-- 
2.43.0


From 17a5d1cfd17cb6c6172520f588c33b60d8b68107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:27 +0000
Subject: [PATCH 11/63] fix: session manager reports each end once and regains
 capacity of expired sessions

---
 src/transport/mcp_http_session_manager.c | 47 +++++++++++++++++-------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/transport/mcp_http_session_manager.c b/src/transport/mcp_http_session_manager.c
index 0114560..b4d7cf1 100644
--- a/src/transport/mcp_http_session_manager.c
+++ b/src/transport/mcp_http_session_manager.c
@@ -2,6 +2,7 @@
 #include "mcp_log.h"
 #include "mcp_sync.h"
 #include "mcp_string_utils.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -22,8 +23,8 @@
 struct mcp_http_session {
     char session_id[MCP_SESSION_ID_MAX_LENGTH];
     mcp_session_state_t state;
-    time_t created_time;
-    time_t last_access_time;
+    long long created_time;     // Monotonic milliseconds
+    long long last_access_time; // Monotonic milliseconds
     uint32_t timeout_seconds;
     void* user_data;
     bool in_use;
@@ -110,8 +111,19 @@ static bool is_session_expired(const mcp_http_session_t* session) {
         return false; // No timeout
     }
     
-    time_t current_time = time(NULL);
-    return (current_time - session->last_access_time) > session->timeout_seconds;
+    long long current_time = mcp_get_monotonic_ms();
+    return (current_time - session->last_access_time) > (long long)session->timeout_seconds * 1000;
+}
+
+/**
+ * @brief Mark a session as expired and report its end once. The mutex must be held.
+ */
+static void expire_session(mcp_http_session_manager_t* manager, mcp_http_session_t* session) {
+    if (session->state == MCP_SESSION_STATE_ACTIVE) {
+        session->state = MCP_SESSION_STATE_EXPIRED;
+        manager->active_count--;
+        notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
+    }
 }
 
 /**
@@ -190,6 +202,15 @@ mcp_http_session_t* mcp_session_manager_create_session(mcp_http_session_manager_
         }
     }
     
+    // If all slots are taken, reuse one whose session has expired
+    for (size_t i = 0; session == NULL && i < MAX_SESSIONS; i++) {
+        if (is_session_expired(&manager->sessions[i])) {
+            session = &manager->sessions[i];
+            expire_session(manager, session);
+            session->in_use = false;
+        }
+    }
+
     if (session == NULL) {
         mcp_mutex_unlock(manager->mutex);
         mcp_log_error("No available session slots (max: %d)", MAX_SESSIONS);
@@ -205,7 +226,7 @@ mcp_http_session_t* mcp_session_manager_create_session(mcp_http_session_manager_
     
     // Initialize session
     session->state = MCP_SESSION_STATE_ACTIVE;
-    session->created_time = time(NULL);
+    session->created_time = mcp_get_monotonic_ms();
     session->last_access_time = session->created_time;
     session->user_data = NULL;
     session->in_use = true;
@@ -225,9 +246,9 @@ mcp_http_session_t* mcp_session_manager_create_session(mcp_http_session_manager_
     strncpy(session_id_out, session->session_id, MCP_SESSION_ID_MAX_LENGTH - 1);
     session_id_out[MCP_SESSION_ID_MAX_LENGTH - 1] = '\0';
     
-    mcp_mutex_unlock(manager->mutex);
-    
     mcp_log_info("Created session: %s (timeout: %u seconds)", session->session_id, session->timeout_seconds);
+
+    mcp_mutex_unlock(manager->mutex);
     return session;
 }
 
@@ -246,8 +267,7 @@ mcp_http_session_t* mcp_session_manager_get_session(mcp_http_session_manager_t*
             
             // Check if expired
             if (is_session_expired(session)) {
-                session->state = MCP_SESSION_STATE_EXPIRED;
-                notify_session_event(manager, session_id, MCP_SESSION_STATE_EXPIRED);
+                expire_session(manager, session);
                 mcp_mutex_unlock(manager->mutex);
                 return NULL;
             }
@@ -293,8 +313,9 @@ bool mcp_session_manager_terminate_session(mcp_http_session_manager_t* manager,
 }
 
 void mcp_session_touch(mcp_http_session_t* session) {
-    if (session != NULL && session->in_use) {
-        session->last_access_time = time(NULL);
+    // A session that has been idle for too long stays expired
+    if (session != NULL && session->in_use && !is_session_expired(session)) {
+        session->last_access_time = mcp_get_monotonic_ms();
     }
 }
 
@@ -355,12 +376,10 @@ size_t mcp_session_manager_cleanup_expired(mcp_http_session_manager_t* manager)
             mcp_http_session_t* session = &manager->sessions[i];
 
             if (is_session_expired(session)) {
-                session->state = MCP_SESSION_STATE_EXPIRED;
+                expire_session(manager, session);
                 session->in_use = false;
-                manager->active_count--;
                 cleaned_count++;
 
-                notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
                 mcp_log_debug("Cleaned up expired session: %s", session->session_id);
             }
         }
-- 
2.43.0


From 09a28577ae00f6e3121d17bf5b06c0d0d77f251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:49 +0000
Subject: [PATCH 12/63] fix: MQTT session files are replaced atomically and
 durably, one per client

---
 src/transport/mqtt_session_persistence.c | 394 +++++++++++++----------
 1 file changed, 220 insertions(+), 174 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index a30b373..dd5ddf7 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -20,6 +20,7 @@
 #else
 #include <unistd.h>
 #include <dirent.h>
+#include <fcntl.h>
 #endif
 
 // File format version for compatibility
@@ -29,8 +30,10 @@
 #define MQTT_SESSION_MAGIC 0x4D435053  // "MCPS"
 
 // Internal helper functions that assume lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id);
-static int mqtt_session_delete_internal(const char* client_id);
+static bool mqtt_session_is_expired_internal(const char* path);
+static int mqtt_session_delete_internal(const char* path);
+static int mqtt_session_save_internal(const char* client_id, const mqtt_session_data_t* session);
+static int mqtt_session_load_internal(const char* client_id, mqtt_session_data_t* session);
 
 static char* g_storage_path = NULL;
 static mcp_mutex_t* g_session_mutex = NULL;
@@ -46,7 +49,10 @@ static volatile bool g_persistence_shutting_down = false;
  * @return 0 on success, -1 on failure
  */
 static int safe_fwrite(const void* ptr, size_t size, size_t count, FILE* stream) {
-    if (!ptr || !stream || size == 0 || count == 0) {
+    if (size == 0 || count == 0) {
+        return 0; // Nothing to write, e.g. an empty payload
+    }
+    if (!ptr || !stream) {
         mcp_log_error("Invalid parameters for file write operation");
         return -1;
     }
@@ -118,86 +124,73 @@ int mqtt_session_persistence_init(const char* storage_path) {
     return 0;
 }
 
-static char* get_session_path(const char* client_id) {
+static char* get_session_path_with_prefix(const char* prefix, const char* client_id) {
     if (!g_storage_path || !client_id) {
         return NULL;
     }
 
-    // Create a safe filename from client_id
-    char* safe_id = mcp_strdup(client_id);
-    if (!safe_id) {
+    // Every character of the client ID may need three characters
+    size_t path_len = strlen(g_storage_path) + 1 + strlen(prefix) + 3 * strlen(client_id) + 1;
+    char* path = (char*)malloc(path_len);
+    if (!path) {
         return NULL;
     }
 
-    // Replace invalid filename characters
-    for (char* p = safe_id; *p; ++p) {
-        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || 
+    int used = snprintf(path, path_len, "%s/%s", g_storage_path, prefix);
+
+    // Escape invalid filename characters so that different IDs never share a file
+    char* out = path + used;
+    for (const char* p = client_id; *p; ++p) {
+        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || *p == '%' ||
             *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|') {
-            *p = '_';
+            out += snprintf(out, 4, "%%%02X", (unsigned char)*p);
+        } else {
+            *out++ = *p;
         }
     }
-
-    // Allocate path buffer
-    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 6; // +6 for "/.mcp_"
-    char* path = (char*)malloc(path_len);
-    if (!path) {
-        free(safe_id);
-        return NULL;
-    }
-
-    snprintf(path, path_len, "%s/.mcp_%s", g_storage_path, safe_id);
-    free(safe_id);
+    *out = '\0';
     return path;
 }
 
-int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
-    if (!client_id || !session) {
-        return -1;
-    }
-
-    // Check if persistence system is ready
-    if (!is_persistence_ready()) {
-        return -1;
-    }
-
-    // Acquire lock for thread-safe file operations
-    mcp_mutex_lock(g_session_mutex);
-
-    // Double-check after acquiring lock
-    if (!is_persistence_ready()) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
+static char* get_session_path(const char* client_id) {
+    return get_session_path_with_prefix(".mcp_", client_id);
+}
 
-    char* path = get_session_path(client_id);
-    if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
+/**
+ * @brief Makes the creation, replacement or removal of a session file durable
+ */
+static int sync_storage_directory(void) {
+#ifdef _WIN32
+    return 0;
+#else
+    int fd = open(g_storage_path, O_RDONLY);
+    if (fd < 0) {
         return -1;
     }
+    int result = fsync(fd);
+    close(fd);
+    return result == 0 ? 0 : -1;
+#endif
+}
 
-    FILE* fp = fopen(path, "wb");
-    if (!fp) {
-        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", path, errno);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
+/**
+ * @brief Seconds since the given wall clock time, 0 if the clock was set back
+ */
+static uint64_t elapsed_seconds_since(uint64_t time_ms) {
+    uint64_t current_time = mcp_get_time_ms();
+    return current_time > time_ms ? (current_time - time_ms) / 1000 : 0;
+}
 
+static int write_session(FILE* fp, const char* client_id, const mqtt_session_data_t* session) {
     // Write session data
     uint32_t magic = MQTT_SESSION_MAGIC;
     if (safe_fwrite(&magic, sizeof(magic), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Write file format version
     uint16_t version = MQTT_SESSION_FILE_VERSION;
     if (safe_fwrite(&version, sizeof(version), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -206,9 +199,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     if (safe_fwrite(&session->session_created_time, sizeof(session->session_created_time), 1, fp) != 0 ||
         safe_fwrite(&current_time, sizeof(current_time), 1, fp) != 0 ||
         safe_fwrite(&session->session_expiry_interval, sizeof(session->session_expiry_interval), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -216,9 +206,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     uint16_t client_id_len = (uint16_t)strlen(client_id);
     if (safe_fwrite(&client_id_len, sizeof(client_id_len), 1, fp) != 0 ||
         safe_fwrite(client_id, 1, client_id_len, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -230,9 +217,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         sub = sub->next;
     }
     if (safe_fwrite(&sub_count, sizeof(sub_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -243,9 +227,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(sub->topic, 1, topic_len, fp) != 0 ||
             safe_fwrite(&sub->qos, sizeof(sub->qos), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
         sub = sub->next;
@@ -253,9 +234,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
 
     // Write last packet ID
     if (safe_fwrite(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -267,9 +245,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         inflight = inflight->next;
     }
     if (safe_fwrite(&inflight_count, sizeof(inflight_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -277,27 +252,18 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     inflight = session->inflight_messages;
     while (inflight) {
         if (safe_fwrite(&inflight->packet_id, sizeof(inflight->packet_id), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         uint16_t topic_len = (uint16_t)strlen(inflight->topic);
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(inflight->topic, 1, topic_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         uint32_t payload_len = (uint32_t)inflight->payload_len;
         if (safe_fwrite(&payload_len, sizeof(payload_len), 1, fp) != 0 ||
             safe_fwrite(inflight->payload, 1, inflight->payload_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
@@ -305,22 +271,77 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
             safe_fwrite(&inflight->retain, sizeof(inflight->retain), 1, fp) != 0 ||
             safe_fwrite(&inflight->send_time, sizeof(inflight->send_time), 1, fp) != 0 ||
             safe_fwrite(&inflight->retry_count, sizeof(inflight->retry_count), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         inflight = inflight->next;
     }
 
-    fclose(fp);
-    free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 }
 
-int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+// Internal helper function - assumes lock is already held
+static int mqtt_session_save_internal(const char* client_id, const mqtt_session_data_t* session) {
+    // Write a new file and let it replace the old one only once it is complete and durable
+    char* path = get_session_path(client_id);
+    char* temp_path = get_session_path_with_prefix(".tmp_mcp_", client_id);
+    if (!path || !temp_path) {
+        free(path);
+        free(temp_path);
+        return -1;
+    }
+
+    FILE* fp = fopen(temp_path, "wb");
+    if (!fp) {
+        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", temp_path, errno);
+        free(path);
+        free(temp_path);
+        return -1;
+    }
+
+    int result = write_session(fp, client_id, session);
+    if (fflush(fp) != 0) {
+        result = -1;
+    }
+#ifdef _WIN32
+    if (result == 0 && _commit(_fileno(fp)) != 0) {
+        result = -1;
+    }
+#else
+    if (result == 0 && fsync(fileno(fp)) != 0) {
+        result = -1;
+    }
+#endif
+    if (fclose(fp) != 0) {
+        result = -1;
+    }
+
+#ifdef _WIN32
+    if (result == 0 && !MoveFileExA(temp_path, path, MOVEFILE_REPLACE_EXISTING | MOVEFILE_WRITE_THROUGH)) {
+        result = -1;
+    }
+#else
+    if (result == 0 && rename(temp_path, path) != 0) {
+        result = -1;
+    }
+#endif
+    if (result != 0) {
+        mcp_log_error("Failed to write session file: %s (errno: %d)", path, errno);
+#ifdef _WIN32
+        _unlink(temp_path);
+#else
+        unlink(temp_path);
+#endif
+    } else {
+        result = sync_storage_directory();
+    }
+
+    free(path);
+    free(temp_path);
+    return result;
+}
+
+int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
     }
@@ -339,9 +360,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         return -1;
     }
 
+    int result = mqtt_session_save_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
+// Internal helper function - assumes lock is already held
+static int mqtt_session_load_internal(const char* client_id, mqtt_session_data_t* session) {
     char* path = get_session_path(client_id);
     if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -349,7 +376,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!fp) {
         mcp_log_warn("Failed to open session file for reading: %s (errno: %d)", path, errno);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -359,7 +385,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Invalid session file magic number for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -369,7 +394,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session file version for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -377,7 +401,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Unsupported session file version %u for client: %s", version, client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -388,22 +411,19 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session metadata for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Check if session has expired
     if (session->session_expiry_interval > 0) {
-        uint64_t current_time = mcp_get_time_ms();
-        uint64_t elapsed_seconds = (current_time - session->session_last_access_time) / 1000;
+        uint64_t elapsed_seconds = elapsed_seconds_since(session->session_last_access_time);
         if (elapsed_seconds > session->session_expiry_interval) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
             fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             // Delete expired session file
-            mqtt_session_delete(client_id);
+            mqtt_session_delete_internal(path);
+            free(path);
             return -1;
         }
     }
@@ -413,7 +433,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&client_id_len, sizeof(client_id_len), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -421,7 +440,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!loaded_client_id) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -429,7 +447,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     loaded_client_id[client_id_len] = '\0';
@@ -439,7 +456,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     free(loaded_client_id);
@@ -449,11 +465,14 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&sub_count, sizeof(sub_count), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
-    // Read subscriptions
+    // Read subscriptions, keeping their order
+    struct mqtt_subscription** sub_tail = &session->subscriptions;
+    while (*sub_tail) {
+        sub_tail = &(*sub_tail)->next;
+    }
     for (uint16_t i = 0; i < sub_count; i++) {
         uint16_t topic_len;
         if (fread(&topic_len, sizeof(topic_len), 1, fp) != 1) {
@@ -491,21 +510,29 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
         sub->topic = topic;
         sub->qos = qos;
-        sub->next = session->subscriptions;
-        session->subscriptions = sub;
+        sub->active = true;
+        sub->next = NULL;
+        *sub_tail = sub;
+        sub_tail = &sub->next;
     }
 
     // Read last packet ID
     if (fread(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 1) {
         mcp_log_warn("Failed to read last packet ID for client: %s", client_id);
-        // Continue anyway, this is not critical
-        session->last_packet_id = 1;
+        goto cleanup_and_exit;
     }
 
     // Read in-flight message count
     uint16_t inflight_count = 0;
-    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
-        // Read in-flight messages
+    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) != 1) {
+        mcp_log_warn("Failed to read in-flight message count for client: %s", client_id);
+        goto cleanup_and_exit;
+    } else {
+        // Read in-flight messages, keeping their order
+        struct mqtt_inflight_message** inflight_tail = &session->inflight_messages;
+        while (*inflight_tail) {
+            inflight_tail = &(*inflight_tail)->next;
+        }
         for (uint16_t i = 0; i < inflight_count; i++) {
             struct mqtt_inflight_message* inflight = malloc(sizeof(struct mqtt_inflight_message));
             if (!inflight) {
@@ -552,7 +579,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
-            inflight->payload = malloc(payload_len);
+            inflight->payload = malloc(payload_len ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
                 free(inflight);
@@ -582,8 +609,9 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             }
 
             // Add to list
-            inflight->next = session->inflight_messages;
-            session->inflight_messages = inflight;
+            inflight->next = NULL;
+            *inflight_tail = inflight;
+            inflight_tail = &inflight->next;
         }
     }
 
@@ -592,7 +620,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 
 cleanup_and_exit:
@@ -618,10 +645,33 @@ cleanup_and_exit:
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return -1;
 }
 
+int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+    if (!client_id || !session) {
+        return -1;
+    }
+
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Acquire lock for thread-safe file operations
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    int result = mqtt_session_load_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
 int mqtt_session_delete(const char* client_id) {
     if (!client_id) {
         return -1;
@@ -647,18 +697,10 @@ int mqtt_session_delete(const char* client_id) {
         return -1;
     }
 
-    int result = 0;
-#ifdef _WIN32
-    if (_unlink(path) != 0) {
-        mcp_log_warn("Failed to delete session file: %s (errno: %d)", path, errno);
-        result = -1;
-    }
-#else
-    if (unlink(path) != 0) {
+    int result = mqtt_session_delete_internal(path);
+    if (result != 0) {
         mcp_log_warn("Failed to delete session file: %s (errno: %d)", path, errno);
-        result = -1;
     }
-#endif
 
     free(path);
     mcp_mutex_unlock(g_session_mutex);
@@ -712,9 +754,7 @@ bool mqtt_session_is_expired(const char* client_id) {
         return false; // No expiry
     }
 
-    uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
-    return elapsed_seconds > expiry_interval;
+    return elapsed_seconds_since(last_access_time) > expiry_interval;
 }
 
 int mqtt_session_get_info(const char* client_id, uint64_t* created_time,
@@ -790,9 +830,24 @@ int mqtt_session_update_access_time(const char* client_id) {
         return -1;
     }
 
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Load and save under one lock so that no save in between is undone
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
     // Load session data
     mqtt_session_data_t session_data = {0};
-    if (mqtt_session_load(client_id, &session_data) != 0) {
+    if (mqtt_session_load_internal(client_id, &session_data) != 0) {
+        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -800,7 +855,8 @@ int mqtt_session_update_access_time(const char* client_id) {
     session_data.session_last_access_time = mcp_get_time_ms();
 
     // Save session data
-    int result = mqtt_session_save(client_id, &session_data);
+    int result = mqtt_session_save_internal(client_id, &session_data);
+    mcp_mutex_unlock(g_session_mutex);
 
     // Cleanup loaded data
     struct mqtt_subscription* sub = session_data.subscriptions;
@@ -854,12 +910,13 @@ int mqtt_session_cleanup_expired(void) {
                 // Extract client ID from filename
                 const char* filename = find_data.cFileName;
                 if (strncmp(filename, ".mcp_", 5) == 0) {
-                    const char* client_id = filename + 5;
+                    char path[512 + MAX_PATH];
+                    snprintf(path, sizeof(path), "%s/%s", g_storage_path, filename);
 
-                    if (mqtt_session_is_expired_internal(client_id)) {
-                        if (mqtt_session_delete_internal(client_id) == 0) {
+                    if (mqtt_session_is_expired_internal(path)) {
+                        if (mqtt_session_delete_internal(path) == 0) {
                             cleaned_count++;
-                            mcp_log_info("Cleaned expired session for client: %s", client_id);
+                            mcp_log_info("Cleaned expired session file: %s", filename);
                         }
                     }
                 }
@@ -875,14 +932,20 @@ int mqtt_session_cleanup_expired(void) {
         struct dirent* entry;
         while ((entry = readdir(dir)) != NULL) {
             if (strncmp(entry->d_name, ".mcp_", 5) == 0) {
-                const char* client_id = entry->d_name + 5;
+                size_t path_len = strlen(g_storage_path) + 1 + strlen(entry->d_name) + 1;
+                char* path = (char*)malloc(path_len);
+                if (!path) {
+                    continue;
+                }
+                snprintf(path, path_len, "%s/%s", g_storage_path, entry->d_name);
 
-                if (mqtt_session_is_expired_internal(client_id)) {
-                    if (mqtt_session_delete_internal(client_id) == 0) {
+                if (mqtt_session_is_expired_internal(path)) {
+                    if (mqtt_session_delete_internal(path) == 0) {
                         cleaned_count++;
-                        mcp_log_info("Cleaned expired session for client: %s", client_id);
+                        mcp_log_info("Cleaned expired session file: %s", entry->d_name);
                     }
                 }
+                free(path);
             }
         }
         closedir(dir);
@@ -929,73 +992,54 @@ void mqtt_session_persistence_cleanup(void) {
 }
 
 // Internal helper function - assumes lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id) {
-    if (!client_id) {
-        return true;
-    }
-
+static bool mqtt_session_is_expired_internal(const char* path) {
     uint64_t created_time, last_access_time;
     uint32_t expiry_interval;
 
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return true;
-    }
-
     FILE* fp = fopen(path, "rb");
     if (!fp) {
-        free(path);
-        return true;
+        return false; // Not readable at the moment, that says nothing about its age
     }
 
     // Read magic number
     uint32_t magic;
     if (fread(&magic, sizeof(magic), 1, fp) != 1 || magic != MQTT_SESSION_MAGIC) {
+        // A damaged file is of no use, but a read error may be gone next time
+        bool damaged = !ferror(fp);
         fclose(fp);
-        free(path);
-        return true;
+        return damaged;
     }
 
     // Read version
     uint16_t version;
     if (fread(&version, sizeof(version), 1, fp) != 1) {
+        // A damaged file is of no use, but a read error may be gone next time
+        bool damaged = !ferror(fp);
         fclose(fp);
-        free(path);
-        return true;
+        return damaged;
     }
 
     // Read session metadata
     if (fread(&created_time, sizeof(created_time), 1, fp) != 1 ||
         fread(&last_access_time, sizeof(last_access_time), 1, fp) != 1 ||
         fread(&expiry_interval, sizeof(expiry_interval), 1, fp) != 1) {
+        // A damaged file is of no use, but a read error may be gone next time
+        bool damaged = !ferror(fp);
         fclose(fp);
-        free(path);
-        return true;
+        return damaged;
     }
 
     fclose(fp);
-    free(path);
 
     if (expiry_interval == 0) {
         return false; // No expiry
     }
 
-    uint64_t current_time = mcp_get_time_ms();
-    uint64_t elapsed_seconds = (current_time - last_access_time) / 1000;
-    return elapsed_seconds > expiry_interval;
+    return elapsed_seconds_since(last_access_time) > expiry_interval;
 }
 
 // Internal helper function - assumes lock is already held
-static int mqtt_session_delete_internal(const char* client_id) {
-    if (!client_id) {
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return -1;
-    }
-
+static int mqtt_session_delete_internal(const char* path) {
     int result = 0;
 #ifdef _WIN32
     if (_unlink(path) != 0) {
@@ -1007,6 +1051,8 @@ static int mqtt_session_delete_internal(const char* client_id) {
     }
 #endif
 
-    free(path);
+    if (result == 0) {
+        result = sync_storage_directory();
+    }
     return result;
 }
-- 
2.43.0


From 25b9def42a2c841d651090f9342d2fcd4c26276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:15 +0000
Subject: [PATCH 13/63] fix: SSE events are stored, delivered and replayed in
 order to the right session

The event id, the store and the delivery are now one step under the SSE
lock. Replay honours the session an event was sent to, optional fields may
be NULL, multi-line data is split into data fields and a closed client is
taken off the list before its data is freed.
---
 .../internal/http_transport_internal.h        |   4 +-
 src/transport/mcp_http_server_callbacks.c     |  24 +--
 src/transport/mcp_http_server_handlers.c      | 101 +----------
 src/transport/mcp_http_server_sse.c           | 171 +++++++++++++-----
 src/transport/mcp_http_transport.c            |   3 +
 src/transport/mcp_sthttp_utils.c              |  85 +++++----
 6 files changed, 202 insertions(+), 186 deletions(-)

diff --git a/src/transport/internal/http_transport_internal.h b/src/transport/internal/http_transport_internal.h
index baae319..85df325 100644
--- a/src/transport/internal/http_transport_internal.h
+++ b/src/transport/internal/http_transport_internal.h
@@ -42,6 +42,7 @@ typedef struct {
 
     // SSE event storage for reconnection (circular buffer)
     sse_event_t stored_events[MAX_SSE_STORED_EVENTS];
+    char* stored_event_sessions[MAX_SSE_STORED_EVENTS]; // Session each event is meant for (NULL = broadcast)
     int event_head;          // Index of the oldest event
     int event_tail;          // Index where the next event will be stored
     int stored_event_count;  // Current number of stored events
@@ -86,7 +87,8 @@ int add_cors_headers(struct lws* wsi, http_transport_data_t* data,
 int lws_root_handler(struct lws* wsi, enum lws_callback_reasons reason,
                 void* user, void* in, size_t len);
 
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data);
+int store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id);
+void replay_sse_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
 void send_sse_heartbeat(http_transport_data_t* data);
 
 // LWS protocols
diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 4c5b483..07b5055 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1610,18 +1610,6 @@ static int handle_closed_http(struct lws* wsi, http_transport_data_t* data, http
         session->request_len = 0;
     }
 
-    // Free event filter if set
-    if (session->event_filter != NULL) {
-        free(session->event_filter);
-        session->event_filter = NULL;
-    }
-
-    // Free session ID if set
-    if (session->session_id != NULL) {
-        free(session->session_id);
-        session->session_id = NULL;
-    }
-
     // Remove from SSE clients if this was an SSE client
     if (session->is_sse_client) {
         mcp_log_info("SSE client disconnected");
@@ -1660,5 +1648,17 @@ static int handle_closed_http(struct lws* wsi, http_transport_data_t* data, http
         session->is_sse_client = false;
     }
 
+    // Free event filter if set
+    if (session->event_filter != NULL) {
+        free(session->event_filter);
+        session->event_filter = NULL;
+    }
+
+    // Free session ID if set
+    if (session->session_id != NULL) {
+        free(session->session_id);
+        session->session_id = NULL;
+    }
+
     return 0;
 }
\ No newline at end of file
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 03543d7..ffb58cc 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -40,7 +40,6 @@
 // Forward declarations
 static char* url_decode(const char* src);
 static char* extract_query_param(const char* query, const char* param_name);
-static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
 
 /**
  * @brief Root path handler for HTTP server
@@ -349,96 +348,6 @@ static char* extract_query_param(const char* query, const char* param_name) {
     }
 }
 
-/**
- * @brief Replay stored SSE events to a client
- *
- * This function replays stored SSE events to a client that has reconnected with a Last-Event-ID.
- *
- * @param wsi WebSocket instance
- * @param data Transport data
- * @param session Session data
- */
-static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session) {
-    if (wsi == NULL || data == NULL || session == NULL || session->last_event_id <= 0) {
-        return;
-    }
-
-    mcp_log_info("Replaying missed events for client with Last-Event-ID: %d", session->last_event_id);
-
-    // Lock the event mutex to safely access the stored events
-    mcp_mutex_lock(data->event_mutex);
-
-    // Check if there are any stored events
-    if (data->stored_event_count <= 0) {
-        mcp_log_debug("No stored events to replay");
-        mcp_mutex_unlock(data->event_mutex);
-        return;
-    }
-
-    // Iterate through the circular buffer to find events with ID greater than last_event_id
-    int current = data->event_head;
-    int count = 0;
-    int replayed_count = 0;
-
-    // Process all events in the buffer
-    while (count < data->stored_event_count) {
-        // Get the event ID
-        int event_id = 0;
-        if (data->stored_events[current].id != NULL) {
-            event_id = atoi(data->stored_events[current].id);
-        }
-
-        // Only send events with ID greater than last_event_id
-        if (event_id > session->last_event_id) {
-            // Check if the event matches the filter (if any)
-            bool should_send = true;
-
-            if (session->event_filter != NULL && data->stored_events[current].event != NULL) {
-                if (strcmp(session->event_filter, data->stored_events[current].event) != 0) {
-                    should_send = false;
-                }
-            }
-
-            // Send the event if it passes the filter
-            if (should_send) {
-                // Replay the event
-                if (data->stored_events[current].event != NULL) {
-                    // Write event type
-                    lws_write_http(wsi, SSE_FIELD_EVENT, strlen(SSE_FIELD_EVENT));
-                    lws_write_http(wsi, data->stored_events[current].event,
-                                  strlen(data->stored_events[current].event));
-                    lws_write_http(wsi, "\n", 1);
-                }
-
-                // Write event ID
-                lws_write_http(wsi, SSE_FIELD_ID, strlen(SSE_FIELD_ID));
-                lws_write_http(wsi, data->stored_events[current].id,
-                              strlen(data->stored_events[current].id));
-                lws_write_http(wsi, "\n", 1);
-
-                // Write event data
-                lws_write_http(wsi, SSE_FIELD_DATA, strlen(SSE_FIELD_DATA));
-                lws_write_http(wsi, data->stored_events[current].data,
-                              strlen(data->stored_events[current].data));
-                lws_write_http(wsi, "\n\n", 2);
-
-                // Request a callback when the socket is writable again
-                lws_callback_on_writable(wsi);
-
-                replayed_count++;
-            }
-        }
-
-        // Move to the next event in the circular buffer
-        current = (current + 1) % MAX_SSE_STORED_EVENTS;
-        count++;
-    }
-
-    mcp_mutex_unlock(data->event_mutex);
-
-    mcp_log_info("Replayed %d events to client", replayed_count);
-}
-
 /**
  * @brief Handle SSE (Server-Sent Events) request
  *
@@ -596,18 +505,20 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
         return;
     }
 
-    mcp_mutex_unlock(data->sse_mutex);
-
     // Send initial SSE message
     const char* initial_msg = "data: connected\n\n";
     int bytes_written = lws_write(wsi, (unsigned char*)initial_msg, strlen(initial_msg), LWS_WRITE_HTTP);
     if (bytes_written < 0) {
         mcp_log_error("Failed to write initial SSE message");
+        mcp_mutex_unlock(data->sse_mutex);
         return;
     }
 
-    // If client reconnected with Last-Event-ID, replay missed events
+    // If client reconnected with Last-Event-ID, replay missed events before any new one
     if (session->last_event_id > 0) {
-        replay_stored_events(wsi, data, session);
+        mcp_log_info("Replaying missed events for client with Last-Event-ID: %d", session->last_event_id);
+        replay_sse_events(wsi, data, session);
     }
+
+    mcp_mutex_unlock(data->sse_mutex);
 }
diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index 87af6cf..5d86c6f 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -35,56 +35,63 @@ static void free_stored_event(sse_event_t* event) {
  * This function allocates memory for and stores an SSE event in the circular buffer.
  * It handles all necessary memory management and error conditions.
  *
- * @param index Index in the circular buffer
- * @param data Transport data
+ * @param stored Event to fill
+ * @param stored_session Session of the event to fill
  * @param event_id Event ID string
  * @param event_type Event type (can be NULL)
  * @param event_data Event data
+ * @param session_id Session the event is meant for (can be NULL)
  * @return bool true if successful, false on parameter or memory allocation failure
  */
-static bool allocate_event_fields(int index, http_transport_data_t* data,
+static bool allocate_event_fields(sse_event_t* stored, char** stored_session,
                                  const char* event_id, const char* event_type,
-                                 const char* event_data) {
-    if (data == NULL || event_id == NULL || event_data == NULL ||
-        index < 0 || index >= MAX_SSE_STORED_EVENTS) {
+                                 const char* event_data, const char* session_id) {
+    if (stored == NULL || stored_session == NULL || event_id == NULL || event_data == NULL) {
         mcp_log_error("Invalid parameters for allocate_event_fields");
         return false;
     }
 
-    data->stored_events[index].id = NULL;
-    data->stored_events[index].event = NULL;
-    data->stored_events[index].data = NULL;
-    data->stored_events[index].timestamp = 0;
+    memset(stored, 0, sizeof(*stored));
+    *stored_session = NULL;
 
-    data->stored_events[index].id = mcp_strdup(event_id);
-    if (data->stored_events[index].id == NULL) {
+    stored->id = mcp_strdup(event_id);
+    if (stored->id == NULL) {
         mcp_log_error("Failed to allocate memory for event ID");
         goto cleanup_error;
     }
 
     // Store the event type (if provided)
     if (event_type != NULL) {
-        data->stored_events[index].event = mcp_strdup(event_type);
-        if (data->stored_events[index].event == NULL) {
+        stored->event = mcp_strdup(event_type);
+        if (stored->event == NULL) {
             mcp_log_error("Failed to allocate memory for event type");
             goto cleanup_error;
         }
     }
 
     // Store the event data
-    data->stored_events[index].data = mcp_strdup(event_data);
-    if (data->stored_events[index].data == NULL) {
+    stored->data = mcp_strdup(event_data);
+    if (stored->data == NULL) {
         mcp_log_error("Failed to allocate memory for event data");
         goto cleanup_error;
     }
 
+    // Store the session the event is meant for (if any)
+    if (session_id != NULL) {
+        *stored_session = mcp_strdup(session_id);
+        if (*stored_session == NULL) {
+            mcp_log_error("Failed to allocate memory for event session");
+            goto cleanup_error;
+        }
+    }
+
     // Set the timestamp
-    data->stored_events[index].timestamp = time(NULL);
+    stored->timestamp = time(NULL);
     
     return true;
 
 cleanup_error:
-    free_stored_event(&data->stored_events[index]);
+    free_stored_event(stored);
     return false;
 }
 
@@ -98,21 +105,23 @@ cleanup_error:
  * @param data Transport data containing the event circular buffer
  * @param event Event type (can be NULL for default events)
  * @param event_data Event data payload (must not be NULL)
+ * @param session_id Session the event is meant for (NULL for broadcast)
+ * @return int ID of the event, -1 if it could not be stored
  */
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data) {
+int store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id) {
     if (data == NULL || event_data == NULL) {
         mcp_log_error("Invalid parameters for store_sse_event");
-        return;
+        return -1;
     }
 
     if (!is_valid_sse_text(event_data)) {
         mcp_log_error("Invalid characters in SSE event data");
-        return;
+        return -1;
     }
 
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
-        return;
+        return -1;
     }
 
     mcp_mutex_lock(data->event_mutex);
@@ -125,7 +134,16 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
     if (id_len < 0 || id_len >= (int)sizeof(id_str)) {
         mcp_log_error("Event ID buffer overflow: ID %d exceeds buffer size", event_id);
         mcp_mutex_unlock(data->event_mutex);
-        return;
+        return -1;
+    }
+
+    // Allocate the event fields before making room for them
+    sse_event_t stored;
+    char* stored_session;
+    if (!allocate_event_fields(&stored, &stored_session, id_str, event, event_data, session_id)) {
+        mcp_log_error("Failed to allocate event fields, event not stored");
+        mcp_mutex_unlock(data->event_mutex);
+        return -1;
     }
 
     // Handle circular buffer management
@@ -136,6 +154,7 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
 
         // Free the oldest event's memory (at head position)
         free_stored_event(&data->stored_events[data->event_head]);
+        safe_free_string(&data->stored_event_sessions[data->event_head]);
 
         // Move head forward (oldest event position)
         data->event_head = (data->event_head + 1) % MAX_SSE_STORED_EVENTS;
@@ -151,12 +170,9 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
     // Add the new event at the tail position
     int index = data->event_tail;
 
-    // Allocate and store the event fields
-    if (!allocate_event_fields(index, data, id_str, event, event_data)) {
-        mcp_log_error("Failed to allocate event fields, event not stored");
-        mcp_mutex_unlock(data->event_mutex);
-        return;
-    }
+    // Store the event fields
+    data->stored_events[index] = stored;
+    data->stored_event_sessions[index] = stored_session;
 
     // Move tail forward (position for next event)
     data->event_tail = (data->event_tail + 1) % MAX_SSE_STORED_EVENTS;
@@ -165,6 +181,7 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
                  id_str, event ? event : "(default)", strlen(event_data));
 
     mcp_mutex_unlock(data->event_mutex);
+    return event_id;
 }
 
 /**
@@ -399,6 +416,26 @@ static bool write_sse_field(struct lws* wsi, const char* field, const char* valu
     return lws_write_http(wsi, "\n", 1) >= 0;
 }
 
+/**
+ * @brief Write event data, one data field per line as the SSE format demands
+ */
+static bool write_sse_data(struct lws* wsi, const char* data) {
+    for (;;) {
+        const char* end = strchr(data, '\n');
+        size_t len = end ? (size_t)(end - data) : strlen(data);
+
+        if (lws_write_http(wsi, SSE_FIELD_DATA, strlen(SSE_FIELD_DATA)) < 0 ||
+            (len > 0 && lws_write_http(wsi, data, len) < 0) ||
+            lws_write_http(wsi, "\n", 1) < 0) {
+            return false;
+        }
+        if (end == NULL) {
+            return true;
+        }
+        data = end + 1;
+    }
+}
+
 /**
  * @brief Send an SSE event to a client
  *
@@ -430,7 +467,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
     }
 
     // Validate event type if provided
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
         return false;
     }
@@ -457,7 +494,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
         }
 
         // Step 3: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
+        result = write_sse_data(wsi, data);
         if (!result) {
             mcp_log_error("Failed to write data field");
             return false;
@@ -480,7 +517,7 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
         }
 
         // Step 2: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
+        result = write_sse_data(wsi, data);
         if (!result) {
             mcp_log_error("Failed to write data field");
             return false;
@@ -501,6 +538,53 @@ static bool send_sse_event_to_client(struct lws* wsi, const char* event,
     return true;
 }
 
+/**
+ * @brief Replay the stored events a reconnecting client has missed
+ *
+ * The caller holds the SSE mutex, so no event can be stored or delivered meanwhile.
+ *
+ * @param wsi WebSocket instance
+ * @param data Transport data
+ * @param session Session data with the last event the client has seen
+ */
+void replay_sse_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session) {
+    if (wsi == NULL || data == NULL || session == NULL) {
+        return;
+    }
+
+    int last_event_id = session->last_event_id;
+    int replayed_count = 0;
+
+    mcp_mutex_lock(data->event_mutex);
+
+    for (int count = 0; count < data->stored_event_count; count++) {
+        int current = (data->event_head + count) % MAX_SSE_STORED_EVENTS;
+        const sse_event_t* stored = &data->stored_events[current];
+        if (stored->id == NULL || stored->data == NULL) {
+            continue;
+        }
+
+        // Only send events the client has not seen and that are meant for it
+        int event_id = atoi(stored->id);
+        if (event_id <= last_event_id ||
+            !session_matches_filter(session, stored->event) ||
+            !session_matches_id(session, data->stored_event_sessions[current])) {
+            continue;
+        }
+
+        if (!send_sse_event_to_client(wsi, stored->event, stored->data, stored->id)) {
+            mcp_log_error("Failed to replay SSE event %s", stored->id);
+            break;
+        }
+        session->last_event_id = event_id;
+        replayed_count++;
+    }
+
+    mcp_mutex_unlock(data->event_mutex);
+
+    mcp_log_info("Replayed %d events to client", replayed_count);
+}
+
 /**
  * @brief Send SSE event to a specific session or all connected clients
  *
@@ -526,29 +610,35 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         return -1;
     }
 
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
         return -1;
     }
 
-    if (!is_valid_sse_text(session_id)) {
+    if (session_id != NULL && !is_valid_sse_text(session_id)) {
         mcp_log_error("Invalid characters in SSE session ID");
         return -1;
     }
 
     http_transport_data_t* transport_data = (http_transport_data_t*)transport->transport_data;
 
-    // Store the event for replay on reconnection (for clients that join later)
-    store_sse_event(transport_data, event, data);
+    // Lock the SSE mutex to safely access the client list. Storing under it keeps the
+    // order of delivery equal to the order of IDs and makes replay and delivery exclusive.
+    mcp_mutex_lock(transport_data->sse_mutex);
 
-    // Get the current event ID (already incremented in store_sse_event)
-    int event_id = transport_data->next_event_id - 1;
+    // Store the event for replay on reconnection (for clients that join later)
+    int event_id = store_sse_event(transport_data, event, data, session_id);
+    if (event_id < 0) {
+        mcp_mutex_unlock(transport_data->sse_mutex);
+        return -1;
+    }
 
     // Format the event ID as a string for SSE protocol
     char id_str[SSE_ID_BUFFER_SIZE];
     int id_len = snprintf(id_str, sizeof(id_str), "%d", event_id);
     if (id_len < 0 || id_len >= (int)sizeof(id_str)) {
         mcp_log_error("Event ID buffer overflow: ID %d exceeds buffer size", event_id);
+        mcp_mutex_unlock(transport_data->sse_mutex);
         return -1;
     }
 
@@ -557,9 +647,6 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
                  id_str, event ? event : "(default)", strlen(data),
                  session_id ? session_id : "broadcast");
 
-    // Lock the SSE mutex to safely access the client list
-    mcp_mutex_lock(transport_data->sse_mutex);
-
     // Early return if no clients are connected
     if (transport_data->sse_client_count <= 0) {
         mcp_log_warn("No SSE clients connected, event will be stored but not delivered");
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index ea3368b..7ad7d8c 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -140,6 +140,9 @@ static void free_stored_sse_events(http_transport_data_t* data) {
             data->stored_events[current].data = NULL;
         }
 
+        free(data->stored_event_sessions[current]);
+        data->stored_event_sessions[current] = NULL;
+
         // Move to the next event in the circular buffer
         current = (current + 1) % MAX_SSE_STORED_EVENTS;
         count++;
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 9fae4cb..a36a627 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -45,6 +45,7 @@ sse_stream_context_t* sse_stream_context_create(size_t max_stored_events) {
         if (context->stored_events) {
             free(context->stored_events);
         }
+        event_hash_map_destroy(context->event_hash);
         free(context);
         return NULL;
     }
@@ -108,6 +109,20 @@ void sse_stream_context_store_event(sse_stream_context_t* context, const char* e
         event_id = generated_id;
     }
 
+    // Copy the event before making room for it
+    sse_event_t new_event;
+    memset(&new_event, 0, sizeof(new_event));
+    new_event.id = mcp_strdup(event_id);
+    new_event.event = event_type ? mcp_strdup(event_type) : NULL;
+    new_event.data = data ? mcp_strdup(data) : NULL;
+    new_event.timestamp = time(NULL);
+    if (new_event.id == NULL || (event_type && new_event.event == NULL) || (data && new_event.data == NULL)) {
+        mcp_log_error("Failed to allocate memory for SSE event, event not stored");
+        sse_event_clear(&new_event);
+        mcp_mutex_unlock(context->mutex);
+        return;
+    }
+
     // Get the index for the new event
     size_t index = context->event_tail;
 
@@ -126,10 +141,7 @@ void sse_stream_context_store_event(sse_stream_context_t* context, const char* e
 
     // Store the new event
     sse_event_t* event = &context->stored_events[index];
-    event->id = event_id ? mcp_strdup(event_id) : NULL;
-    event->event = event_type ? mcp_strdup(event_type) : NULL;
-    event->data = data ? mcp_strdup(data) : NULL;
-    event->timestamp = time(NULL);
+    *event = new_event;
 
     // Add to hash map for fast lookup
     if (event->id && context->event_hash) {
@@ -145,9 +157,9 @@ void sse_stream_context_store_event(sse_stream_context_t* context, const char* e
     }
     context->last_event_id = event_id ? mcp_strdup(event_id) : NULL;
 
-    mcp_mutex_unlock(context->mutex);
-
     mcp_log_debug("Stored SSE event: id=%s, type=%s", event_id ? event_id : "null", event_type ? event_type : "null");
+
+    mcp_mutex_unlock(context->mutex);
 }
 
 /**
@@ -467,54 +479,55 @@ int send_sse_event(struct lws* wsi, const char* event_id, const char* event_type
         return -1;
     }
 
-    char buffer[4096];
+    // Every line of the data needs its own field
+    size_t data_len = data ? strlen(data) : 0;
+    size_t lines = 1;
+    for (size_t i = 0; i < data_len; i++) {
+        if (data[i] == '\n') {
+            lines++;
+        }
+    }
+
+    size_t capacity = (event_id ? strlen(event_id) : 0) + (event_type ? strlen(event_type) : 0) +
+                      data_len + lines * strlen("data: \n") + 32;
+    char* buffer = (char*)malloc(capacity);
+    if (buffer == NULL) {
+        mcp_log_error("Failed to allocate SSE event buffer");
+        return -1;
+    }
     size_t offset = 0;
 
     // Add event ID if provided
     if (event_id != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "id: %s\n", event_id);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (id)");
-            return -1;
-        }
-        offset += written;
+        offset += snprintf(buffer + offset, capacity - offset, "id: %s\n", event_id);
     }
 
     // Add event type if provided
     if (event_type != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "event: %s\n", event_type);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (event)");
-            return -1;
-        }
-        offset += written;
+        offset += snprintf(buffer + offset, capacity - offset, "event: %s\n", event_type);
     }
 
     // Add data (required)
     if (data != NULL) {
-        int written = snprintf(buffer + offset, sizeof(buffer) - offset, "data: %s\n", data);
-        if (written < 0 || (size_t)written >= sizeof(buffer) - offset) {
-            mcp_log_error("SSE event buffer overflow (data)");
-            return -1;
+        const char* line = data;
+        for (;;) {
+            const char* line_end = strchr(line, '\n');
+            int line_len = (int)(line_end ? (size_t)(line_end - line) : strlen(line));
+            offset += snprintf(buffer + offset, capacity - offset, "data: %.*s\n", line_len, line);
+            if (line_end == NULL) {
+                break;
+            }
+            line = line_end + 1;
         }
-        offset += written;
     }
 
     // Add final newline
-    if (offset < sizeof(buffer) - 1) {
-        buffer[offset++] = '\n';
-        buffer[offset] = '\0';
-    } else {
-        mcp_log_error("SSE event buffer overflow (final newline)");
-        return -1;
-    }
+    buffer[offset++] = '\n';
 
     // Send the event
-    if (lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP) < 0) {
-        return -1;
-    }
-
-    return 0;
+    int result = lws_write(wsi, (unsigned char*)buffer, offset, LWS_WRITE_HTTP) < 0 ? -1 : 0;
+    free(buffer);
+    return result;
 }
 
 /**
-- 
2.43.0


From 03987842d06e13be343f4d5b7c7990218f2b195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:22 +0000
Subject: [PATCH 14/63] fix: framed messages survive short writes, broken
 connections, time-outs and stop requests

---
 src/common/mcp_framing.c      |  12 +--
 src/common/mcp_socket_utils.c | 151 ++++++++++++++++++++++------------
 2 files changed, 101 insertions(+), 62 deletions(-)

diff --git a/src/common/mcp_framing.c b/src/common/mcp_framing.c
index 54f1073..782dbe7 100644
--- a/src/common/mcp_framing.c
+++ b/src/common/mcp_framing.c
@@ -329,14 +329,10 @@ int mcp_framing_recv_batch(socket_t sock, char** messages_out, uint32_t* lengths
         // Receive the message
         int result = mcp_framing_recv_message(sock, &message, &length, max_message_size, stop_flag);
         if (result != 0) {
-            // If this is the first message, it's an error
-            // If we've already received some messages, it's OK to stop here
-            if (i == 0) {
-                mcp_log_error("mcp_framing_recv_batch: Failed to receive first message");
-                return -1;
-            } else {
-                break;
-            }
+            // The stream may have been left in the middle of a frame, so this is an
+            // error even if some messages (counted in count_out) were received
+            mcp_log_error("mcp_framing_recv_batch: Failed to receive message %zu", i);
+            return -1;
         }
 
         // Store the message and length
diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..cffd4a8 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -2,6 +2,7 @@
 #include "mcp_log.h"
 #include "mcp_memory_pool.h"
 #include "mcp_cache_aligned.h"
+#include "mcp_sys_utils.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -530,7 +531,13 @@ socket_t mcp_socket_connect(const char* host, uint16_t port, uint32_t timeout_ms
                 result = select(0, NULL, &write_fds, &error_fds, &tv);
 #else
                 // POSIX select needs max fd + 1
-                result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
+                while ((result = select(sock + 1, NULL, &write_fds, &error_fds, &tv)) == MCP_SOCKET_ERROR && errno == EINTR) {
+                    // Interrupted, wait for the rest of the time
+                    FD_ZERO(&write_fds);
+                    FD_ZERO(&error_fds);
+                    FD_SET(sock, &write_fds);
+                    FD_SET(sock, &error_fds);
+                }
 #endif
 
                 if (result == 0) {
@@ -547,8 +554,8 @@ socket_t mcp_socket_connect(const char* host, uint16_t port, uint32_t timeout_ms
                     continue;
                 }
 
-                // Check if the socket is writable or has an error
-                if (FD_ISSET(sock, &error_fds)) {
+                // A failed connect also makes the socket writable
+                if (FD_ISSET(sock, &error_fds) || FD_ISSET(sock, &write_fds)) {
                     // Get the actual connect error
                     int error = 0;
                     socklen_t error_len = sizeof(error);
@@ -626,6 +633,37 @@ socket_t mcp_socket_connect(const char* host, uint16_t port, uint32_t timeout_ms
     return sock;
 }
 
+#ifndef _WIN32
+// Interval at which blocked operations look at their stop flag
+#define SOCKET_STOP_CHECK_INTERVAL_MS 250
+
+/**
+ * @brief Waits until a socket operation that would have blocked can be retried.
+ *
+ * With a stop flag, or on a non-blocking socket, this polls the socket for a
+ * short while so that the caller can check its stop flag. Otherwise the socket
+ * is a blocking one whose configured timeout has expired.
+ *
+ * @return 0 if the operation should be retried, -1 if the timeout has expired.
+ */
+static int wait_would_block(socket_t sock, short events, volatile bool* stop_flag) {
+    if (!stop_flag) {
+        int flags = fcntl(sock, F_GETFL, 0);
+        if (flags == -1 || !(flags & O_NONBLOCK)) {
+            errno = EAGAIN;
+            return -1;
+        }
+    }
+
+    struct pollfd pfd;
+    pfd.fd = sock;
+    pfd.events = events;
+    pfd.revents = 0;
+    (void)poll(&pfd, 1, SOCKET_STOP_CHECK_INTERVAL_MS);
+    return 0;
+}
+#endif
+
 int mcp_socket_send_exact(socket_t sock, const char* buf, size_t len, volatile bool* stop_flag) {
     size_t total_sent = 0;
     while (total_sent < len) {
@@ -641,7 +679,8 @@ int mcp_socket_send_exact(socket_t sock, const char* buf, size_t len, volatile b
         int bytes_sent = send(sock, buf + total_sent, chunk_len, MCP_SEND_FLAGS);
 #else
         // POSIX send takes size_t length
-        ssize_t bytes_sent = send(sock, buf + total_sent, len - total_sent, MCP_SEND_FLAGS);
+        ssize_t bytes_sent = send(sock, buf + total_sent, len - total_sent,
+                                  MCP_SEND_FLAGS | (stop_flag ? MSG_DONTWAIT : 0));
 #endif
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
@@ -676,7 +715,10 @@ int mcp_socket_send_exact(socket_t sock, const char* buf, size_t len, volatile b
                 continue; // Retry if interrupted by signal
             }
             if (error_code == EAGAIN || error_code == EWOULDBLOCK) {
-                mcp_log_warn("send_exact got EAGAIN/EWOULDBLOCK on blocking socket?");
+                if (wait_would_block(sock, POLLOUT, stop_flag) != 0) {
+                    mcp_log_debug("send_exact timed out (socket %d)", (int)sock);
+                    return -1;
+                }
                 continue;
             }
 #endif
@@ -710,7 +752,7 @@ int mcp_socket_recv_exact(socket_t sock, char* buf, size_t len, volatile bool* s
         int bytes_read = recv(sock, buf + total_read, chunk_len, 0);
 #else
         // POSIX recv takes size_t length
-        ssize_t bytes_read = recv(sock, buf + total_read, len - total_read, 0);
+        ssize_t bytes_read = recv(sock, buf + total_read, len - total_read, stop_flag ? MSG_DONTWAIT : 0);
 #endif
 
         if (bytes_read == MCP_SOCKET_ERROR) {
@@ -743,7 +785,10 @@ int mcp_socket_recv_exact(socket_t sock, char* buf, size_t len, volatile bool* s
                 continue; // Retry if interrupted by signal
             }
             if (error_code == EAGAIN || error_code == EWOULDBLOCK) {
-                mcp_log_warn("recv_exact got EAGAIN/EWOULDBLOCK on blocking socket?");
+                if (wait_would_block(sock, POLLIN, stop_flag) != 0) {
+                    mcp_log_debug("recv_exact timed out (socket %d)", (int)sock);
+                    return -1;
+                }
                 continue;
             }
 #endif
@@ -783,6 +828,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
     DWORD flags = 0;
 
     // Create temporary IOV array to avoid modifying the original array
+    WSABUF* iov_copy = NULL;
     WSABUF* temp_iov = NULL;
     if (iovcnt > 1) {
         temp_iov = (WSABUF*)socket_utils_alloc(iovcnt * sizeof(WSABUF));
@@ -791,6 +837,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
         memcpy(temp_iov, iov, iovcnt * sizeof(WSABUF));
+        iov_copy = temp_iov;
     }
     else {
         temp_iov = iov;
@@ -803,9 +850,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (Win) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
@@ -821,9 +866,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 error_code == WSAENOTCONN ||
                 error_code == WSAECONNABORTED) {
                 mcp_log_debug("send_vectors (Win): Connection closed/reset (socket %d, error %d)", (int)sock, error_code);
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
-                }
+                socket_utils_free(iov_copy);
                 return -1;
             }
 
@@ -835,17 +878,13 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
 
             // Other errors
             mcp_log_error("send_vectors (Win) WSASend failed (socket %d): Error %d", (int)sock, error_code);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
         if (bytes_sent_this_call == 0) {
             mcp_log_error("send_vectors (Win) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
@@ -876,11 +915,10 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
-    }
+    socket_utils_free(iov_copy);
 #else
     // POSIX optimized implementation
+    struct iovec* iov_copy = NULL;
     struct iovec* temp_iov = NULL;
     if (iovcnt > 1) {
         temp_iov = (struct iovec*)socket_utils_alloc(iovcnt * sizeof(struct iovec));
@@ -889,6 +927,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
         memcpy(temp_iov, iov, iovcnt * sizeof(struct iovec));
+        iov_copy = temp_iov;
     } else {
         temp_iov = iov;
     }
@@ -899,13 +938,16 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (POSIX) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
-        ssize_t bytes_sent = writev(sock, temp_iov, current_iovcnt);
+        // sendmsg() instead of writev() so that a broken connection does not raise SIGPIPE
+        struct msghdr msg;
+        memset(&msg, 0, sizeof(msg));
+        msg.msg_iov = temp_iov;
+        msg.msg_iovlen = (current_iovcnt > IOV_MAX) ? IOV_MAX : current_iovcnt;
+        ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS | (stop_flag ? MSG_DONTWAIT : 0));
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
             int error_code = errno;
@@ -918,7 +960,11 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
 
             if (error_code == EAGAIN || error_code == EWOULDBLOCK) {
                 // Non-blocking socket would block, retry later
-                mcp_log_debug("Socket would block, retrying...");
+                if (wait_would_block(sock, POLLOUT, stop_flag) != 0) {
+                    mcp_log_debug("send_vectors (POSIX) timed out (socket %d)", (int)sock);
+                    socket_utils_free(iov_copy);
+                    return -1;
+                }
                 continue;
             }
 
@@ -929,26 +975,20 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 // Connection closed
                 mcp_log_debug("send_vectors (POSIX): Connection closed/reset (socket %d, error %d - %s)",
                              (int)sock, error_code, strerror(error_code));
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
-                }
+                socket_utils_free(iov_copy);
                 return -1;
             }
 
             // Other errors
             mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
         if (bytes_sent == 0) {
             mcp_log_error("send_vectors (POSIX) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
-            }
+            socket_utils_free(iov_copy);
             return -1;
         }
 
@@ -979,9 +1019,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
-    }
+    socket_utils_free(iov_copy);
 #endif
 
     return (total_sent == total_to_send) ? 0 : -1; // Success only if all bytes sent
@@ -1000,10 +1038,10 @@ typedef MCP_CACHE_ALIGNED struct {
     int timeout_ms;                // Timeout in milliseconds
     volatile bool* stop_flag;      // Optional stop flag
     int result;                    // Result of the wait operation
-    time_t start_time;             // Start time for timeout calculation
+    long long start_time;          // Start time for timeout calculation (monotonic, ms)
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE - sizeof(socket_t) - sizeof(bool *)
-                                     - 2 * sizeof(int) - sizeof(time_t)];
+                                     - 2 * sizeof(int) - sizeof(long long)];
 } socket_wait_state_t;
 
 #ifdef _MSC_VER
@@ -1044,7 +1082,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
     state->timeout_ms = timeout_ms;
     state->stop_flag = stop_flag;
     state->result = 0;
-    state->start_time = time(NULL);
+    state->start_time = mcp_get_monotonic_ms();
 
 #ifdef _WIN32
     fd_set read_fds;
@@ -1106,8 +1144,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Finite timeout
-                time_t current_time = time(NULL);
-                long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+                long elapsed_ms = (long)(mcp_get_monotonic_ms() - state->start_time);
 
                 if (elapsed_ms >= timeout_ms) {
                     socket_utils_free(state);
@@ -1167,8 +1204,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
             current_timeout = 0;
         } else {
             // Calculate remaining time
-            time_t current_time = time(NULL);
-            long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+            long elapsed_ms = (long)(mcp_get_monotonic_ms() - state->start_time);
 
             if (elapsed_ms >= timeout_ms) {
                 socket_utils_free(state);
@@ -1206,8 +1242,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Check if the overall timeout has expired
-                time_t current_time = time(NULL);
-                if (difftime(current_time, state->start_time) * 1000 >= timeout_ms) {
+                if (mcp_get_monotonic_ms() - state->start_time >= timeout_ms) {
                     socket_utils_free(state);
                     return 0; // Final timeout expired
                 }
@@ -1468,7 +1503,13 @@ socket_t mcp_socket_connect_nonblocking(const char* host, uint16_t port, uint32_
             result = select(0, NULL, &write_fds, &error_fds, &tv);
 #else
             // POSIX select needs max fd + 1
-            result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
+            while ((result = select(sock + 1, NULL, &write_fds, &error_fds, &tv)) == MCP_SOCKET_ERROR && errno == EINTR) {
+                // Interrupted, wait for the rest of the time
+                FD_ZERO(&write_fds);
+                FD_ZERO(&error_fds);
+                FD_SET(sock, &write_fds);
+                FD_SET(sock, &error_fds);
+            }
 #endif
 
             if (result == 0) {
@@ -1574,6 +1615,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
 
     // Calculate total bytes to send for logging
     size_t total_bytes = 0;
+    int iov_count = 0;
 
     // Fill IOV array from cache-aligned buffer structures
     for (int i = 0; i < buffer_count; i++) {
@@ -1583,12 +1625,13 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
         }
 
 #ifdef _WIN32
-        iov[i].buf = buffers[i]->buffer;
-        iov[i].len = (ULONG)buffers[i]->used;
+        iov[iov_count].buf = buffers[i]->buffer;
+        iov[iov_count].len = (ULONG)buffers[i]->used;
 #else
-        iov[i].iov_base = buffers[i]->buffer;
-        iov[i].iov_len = buffers[i]->used;
+        iov[iov_count].iov_base = buffers[i]->buffer;
+        iov[iov_count].iov_len = buffers[i]->used;
 #endif
+        iov_count++;
         total_bytes += buffers[i]->used;
     }
 
@@ -1596,7 +1639,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
                  buffer_count, total_bytes, (int)sock);
 
     // Use vectored send
-    int result = mcp_socket_send_vectors(sock, iov, buffer_count, stop_flag);
+    int result = mcp_socket_send_vectors(sock, iov, iov_count, stop_flag);
 
     // Free IOV array
     socket_utils_free(iov);
-- 
2.43.0


From e39ed5d702817baa6338d5f2c450da809b0378c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:19 +0000
Subject: [PATCH 15/63] fix: stdio transport keeps concurrent messages whole
 and stops promptly

---
 src/transport/mcp_stdio_transport.c | 155 ++++++++++++++++++++++------
 1 file changed, 126 insertions(+), 29 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 2b09b4a..884a51c 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -20,6 +20,7 @@
 #else
 #include <arpa/inet.h>
 #include <unistd.h>
+#include <poll.h>
 #include <sys/select.h>
 #include <sys/time.h>
 #include <sys/types.h>
@@ -28,6 +29,7 @@
 
 #define MAX_MCP_MESSAGE_SIZE (1024 * 1024) // Maximum message size (1MB)
 #define STDIO_BUFFER_SIZE (64 * 1024)      // 64KB buffer for stdin/stdout
+#define STDIO_STOP_CHECK_INTERVAL_MS 100   // How often a blocked read looks for a stop request
 
 /**
  * @internal
@@ -43,6 +45,8 @@ typedef struct {
     void* (*alloc_func)(size_t);        /**< Function pointer for memory allocation. */
     void (*free_func)(void*);           /**< Function pointer for memory deallocation. */
     mcp_mutex_t* running_mutex;         /**< Mutex to protect access to the running flag. */
+    mcp_mutex_t* send_mutex;            /**< Keeps the parts of one outgoing message together. */
+    bool thread_started;                /**< The read thread was created and has not been joined yet. */
 
     // Padding to ensure the structure fills a complete cache line
     // This helps prevent false sharing in multi-threaded environments
@@ -90,6 +94,59 @@ static const char* get_error_string(int err) {
     return err_buf;
 }
 
+/**
+ * @internal
+ * @brief Reads exactly the given number of bytes from stdin.
+ *
+ * On POSIX the descriptor is read directly, so that waiting for input and
+ * buffered input cannot disagree, and the wait is interrupted regularly to
+ * see whether the transport was stopped.
+ *
+ * @param data The transport data, or NULL to wait without checking for a stop.
+ * @param buf Buffer to fill.
+ * @param len Number of bytes to read.
+ * @return The number of bytes read; fewer than len on EOF, error or stop.
+ */
+static size_t read_stdin_exact(mcp_stdio_transport_data_t* data, char* buf, size_t len) {
+#ifdef _WIN32
+    (void)data;
+    return fread(buf, 1, len, stdin);
+#else
+    size_t total = 0;
+    while (total < len) {
+        if (data != NULL) {
+            mcp_mutex_lock(data->running_mutex);
+            bool is_running = data->running;
+            mcp_mutex_unlock(data->running_mutex);
+            if (!is_running) {
+                break;
+            }
+
+            struct pollfd pfd;
+            pfd.fd = STDIN_FILENO;
+            pfd.events = POLLIN;
+            pfd.revents = 0;
+            if (poll(&pfd, 1, STDIO_STOP_CHECK_INTERVAL_MS) <= 0) {
+                continue;
+            }
+        }
+
+        ssize_t n = read(STDIN_FILENO, buf + total, len - total);
+        if (n < 0) {
+            if (errno == EINTR || errno == EAGAIN) {
+                continue;
+            }
+            break;
+        }
+        if (n == 0) {
+            break; // EOF
+        }
+        total += (size_t)n;
+    }
+    return total;
+#endif
+}
+
 /**
  * @internal
  * @brief Helper function to read a length-prefixed message from stdin.
@@ -113,7 +170,7 @@ static const char* get_error_string(int err) {
  * @param free_func Function to use for memory deallocation on error (if NULL, free is used).
  * @return 0 on success, -1 on error or EOF.
  */
-static int read_length_prefixed_message(char** data_out, size_t* size_out,
+static int read_length_prefixed_message(mcp_stdio_transport_data_t* data, char** data_out, size_t* size_out,
                                        void* (*alloc_func)(size_t),
                                        void (*free_func)(void*)) {
     // Initialize output parameters
@@ -126,13 +183,9 @@ static int read_length_prefixed_message(char** data_out, size_t* size_out,
     char length_buf[4];
     uint32_t message_length_net, message_length_host;
 
-    if (fread(length_buf, 1, sizeof(length_buf), stdin) != sizeof(length_buf)) {
-        // Handle EOF or error
-        if (feof(stdin)) {
-            mcp_log_info("EOF reached on stdin while reading length prefix.");
-        } else {
-            mcp_log_error("Error reading length prefix from stdin: %s", get_error_string(errno));
-        }
+    if (read_stdin_exact(data, length_buf, sizeof(length_buf)) != sizeof(length_buf)) {
+        // EOF, error or stop
+        mcp_log_info("End of input on stdin while reading length prefix.");
         return -1;
     }
 
@@ -154,14 +207,10 @@ static int read_length_prefixed_message(char** data_out, size_t* size_out,
     }
 
     // 5. Read the message body
-    size_t bytes_read = fread(*data_out, 1, message_length_host, stdin);
+    size_t bytes_read = read_stdin_exact(data, *data_out, message_length_host);
     if (bytes_read != message_length_host) {
-        if (feof(stdin)) {
-            mcp_log_info("EOF reached on stdin while reading message body. "
-                        "Expected %u bytes, got %zu", message_length_host, bytes_read);
-        } else {
-            mcp_log_error("Error reading message body from stdin: %s", get_error_string(errno));
-        }
+        mcp_log_info("End of input on stdin while reading message body. "
+                    "Expected %u bytes, got %zu", message_length_host, bytes_read);
 
         // Free the allocated buffer on error
         free_func(*data_out);
@@ -383,7 +432,12 @@ static int wait_for_stdin_data(uint32_t timeout_ms) {
     tv.tv_usec = (timeout_ms % 1000) * 1000;
 
     // Wait for data or timeout
-    int select_result = select(STDIN_FILENO + 1, &readfds, NULL, NULL, &tv);
+    int select_result;
+    while ((select_result = select(STDIN_FILENO + 1, &readfds, NULL, NULL, &tv)) == -1 && errno == EINTR) {
+        // Interrupted, wait for the rest of the time
+        FD_ZERO(&readfds);
+        FD_SET(STDIN_FILENO, &readfds);
+    }
 
     if (select_result == -1) {
         // Error occurred
@@ -423,7 +477,7 @@ static int stdio_transport_receive(mcp_transport_t* transport, char** data_out,
 
     // Data is available, proceed with reading
     // Note: We always use malloc/free here because the caller expects to free with free()
-    return read_length_prefixed_message(data_out, size_out, malloc, free);
+    return read_length_prefixed_message(NULL, data_out, size_out, malloc, free);
 }
 
 /**
@@ -449,9 +503,13 @@ static void* stdio_read_thread_func(void* arg) {
         mcp_mutex_lock(data->running_mutex);
         is_running = data->running;
         mcp_mutex_unlock(data->running_mutex);
+        if (!is_running) {
+            break;
+        }
+
         // Read a length-prefixed message using the helper function
         size_t message_length = 0;
-        if (read_length_prefixed_message(&message_buf, &message_length, data->alloc_func, data->free_func) != 0) {
+        if (read_length_prefixed_message(data, &message_buf, &message_length, data->alloc_func, data->free_func) != 0) {
             // Error or EOF occurred
             // Set running flag to false in a thread-safe manner
             mcp_mutex_lock(data->running_mutex);
@@ -558,19 +616,32 @@ static int stdio_transport_start(
         return 0;
     }
 
+    // A previous read thread may have ended by itself at end of input
+    bool join_previous = data->thread_started;
+    data->thread_started = false;
+
     // Set running flag before creating thread
     data->running = true;
 
     // Unlock the mutex
     mcp_mutex_unlock(data->running_mutex);
 
+    if (join_previous) {
+        mcp_thread_join(data->read_thread, NULL);
+    }
+
     // Create the read thread using cross-platform thread API
     int thread_result = mcp_thread_create(&data->read_thread, stdio_read_thread_func, data);
     if (thread_result != 0) {
         mcp_log_error("Failed to create read thread: error code %d", thread_result);
+        mcp_mutex_lock(data->running_mutex);
         data->running = false;
+        mcp_mutex_unlock(data->running_mutex);
         return -1;
     }
+    mcp_mutex_lock(data->running_mutex);
+    data->thread_started = true;
+    mcp_mutex_unlock(data->running_mutex);
 
     mcp_log_info("Read thread started successfully.");
     return 0;
@@ -593,8 +664,8 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
     // Lock the mutex to safely check and update the running flag
     mcp_mutex_lock(data->running_mutex);
 
-    // Check if already stopped
-    if (!data->running) {
+    // Check if already stopped (a thread that reached end of input still has to be joined)
+    if (!data->thread_started) {
         mcp_mutex_unlock(data->running_mutex);
         mcp_log_debug("Transport already stopped, ignoring stop request.");
         return 0;
@@ -602,6 +673,7 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
 
     // Set running flag to false to signal thread to exit
     data->running = false;
+    data->thread_started = false;
 
     // Unlock the mutex
     mcp_mutex_unlock(data->running_mutex);
@@ -630,8 +702,6 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_send(mcp_transport_t* transport, const void* payload_data, size_t payload_size) {
-    (void)transport;
-
     if (payload_data == NULL || payload_size == 0) {
         mcp_log_error("Invalid payload in send function.");
         return -1;
@@ -644,11 +714,15 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
         return -1;
     }
 
+    mcp_stdio_transport_data_t* data = (mcp_stdio_transport_data_t*)transport->transport_data;
+    mcp_mutex_lock(data->send_mutex);
+
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)payload_size);
     if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
@@ -656,15 +730,18 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
     if (fwrite(payload_data, 1, payload_size, stdout) != payload_size) {
         mcp_log_error("Failed to write payload data to stdout: %s",
                      get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
     // 3. Ensure the output is flushed immediately
     if (fflush(stdout) != 0) {
         mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
+    mcp_mutex_unlock(data->send_mutex);
     return 0;
 }
 
@@ -682,8 +759,6 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t* buffers, size_t buffer_count) {
-    (void)transport;
-
     if (buffers == NULL || buffer_count == 0) {
         mcp_log_error("Invalid buffers in sendv function.");
         return -1;
@@ -713,11 +788,15 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         return -1;
     }
 
+    mcp_stdio_transport_data_t* data = (mcp_stdio_transport_data_t*)transport->transport_data;
+    mcp_mutex_lock(data->send_mutex);
+
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)total_size);
     if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
@@ -731,6 +810,7 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         if (fwrite(buffers[i].data, 1, buffers[i].size, stdout) != buffers[i].size) {
             mcp_log_error("Failed to write buffer %zu to stdout: %s",
                          i, get_error_string(errno));
+            mcp_mutex_unlock(data->send_mutex);
             return -1;
         }
     }
@@ -738,9 +818,11 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
     // 3. Ensure the output is flushed immediately
     if (fflush(stdout) != 0) {
         mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
+    mcp_mutex_unlock(data->send_mutex);
     return 0;
 }
 
@@ -761,14 +843,14 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
     // Ensure transport is stopped first
     bool is_running = false;
 
-    // Lock the mutex to safely check the running flag
+    // Lock the mutex to safely check for a read thread
     if (data->running_mutex != NULL) {
         mcp_mutex_lock(data->running_mutex);
-        is_running = data->running;
+        is_running = data->thread_started;
         mcp_mutex_unlock(data->running_mutex);
     } else {
         // If mutex is NULL (shouldn't happen), use the flag directly
-        is_running = data->running;
+        is_running = data->thread_started;
     }
 
     if (is_running) {
@@ -785,12 +867,18 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
         data->running_mutex = NULL;
     }
 
+    if (data->send_mutex != NULL) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
+
     // Free the specific stdio data using the stored deallocation function
-    data->free_func(transport->transport_data);
+    void (*free_func)(void*) = data->free_func;
+    free_func(transport->transport_data);
     transport->transport_data = NULL;
 
     // Free the main transport struct using the stored deallocation function
-    data->free_func(transport);
+    free_func(transport);
 
     mcp_log_debug("Transport destroyed.");
 }
@@ -852,6 +940,15 @@ mcp_transport_t* mcp_transport_stdio_create(void) {
         return NULL;
     }
 
+    stdio_data->send_mutex = mcp_mutex_create();
+    if (stdio_data->send_mutex == NULL) {
+        mcp_log_error("Failed to create send mutex for transport.");
+        mcp_mutex_destroy(stdio_data->running_mutex);
+        free_func(stdio_data);
+        free_func(transport);
+        return NULL;
+    }
+
     // Set transport type and protocol
     transport->type = MCP_TRANSPORT_TYPE_CLIENT;
     transport->protocol_type = MCP_TRANSPORT_PROTOCOL_STDIO;
-- 
2.43.0


From 8a9d02453b19acc82cc1de211a095a5e76114801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:19 +0000
Subject: [PATCH 16/63] fix: TCP server serves every accepted connection and
 stops with clients connected

A connection was dropped when its handler started before the acceptor had
marked the slot active. Stop waited for handlers before telling them to stop,
and sockets were closed while handlers still used them. Idle time-outs now use
the monotonic clock and do not run while a request is being handled.
---
 .../internal/tcp_transport_internal.h         |  3 +-
 src/transport/mcp_tcp_acceptor.c              | 47 ++++----------
 src/transport/mcp_tcp_client_handler.c        | 61 +++++--------------
 src/transport/mcp_tcp_server_utils.c          | 25 ++++----
 src/transport/mcp_tcp_transport.c             | 39 +++++-------
 5 files changed, 56 insertions(+), 119 deletions(-)

diff --git a/src/transport/internal/tcp_transport_internal.h b/src/transport/internal/tcp_transport_internal.h
index 4c107ac..97565c0 100644
--- a/src/transport/internal/tcp_transport_internal.h
+++ b/src/transport/internal/tcp_transport_internal.h
@@ -59,7 +59,8 @@ typedef struct {
     mcp_transport_t* transport;       // Pointer back to the parent transport
     volatile bool should_stop;        // Flag to signal the handler thread to stop
     client_state_t state;             // Current state of this client slot
-    time_t last_activity_time;        // Timestamp of the last read/write activity
+    long long last_activity_ms;       // Monotonic time of the last read/write activity
+    volatile bool busy;               // A message of this client is being processed
     time_t connect_time;              // When the connection was established
     uint64_t messages_processed;      // Number of messages processed on this connection
     int client_index;                 // Index in the clients array for quick reference
diff --git a/src/transport/mcp_tcp_acceptor.c b/src/transport/mcp_tcp_acceptor.c
index 4353f36..c33f102 100644
--- a/src/transport/mcp_tcp_acceptor.c
+++ b/src/transport/mcp_tcp_acceptor.c
@@ -3,6 +3,7 @@
 #include "mcp_log.h"
 #include "mcp_sync.h"
 #include "mcp_thread_pool.h"
+#include "mcp_sys_utils.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -189,18 +190,15 @@ void* tcp_accept_thread_func(void* arg) {
             continue;
         }
 
-        // Get current time once for both timestamps
-        time_t current_time = time(NULL);
-
         // Initialize the client connection with minimal lock time
         tcp_client_connection_t client_init = {
             .socket = client_socket,
             .address = client_addr,
             .transport = transport,
             .should_stop = false,
-            .state = CLIENT_STATE_INITIALIZING,
-            .last_activity_time = current_time,
-            .connect_time = current_time,
+            .state = CLIENT_STATE_ACTIVE,
+            .last_activity_ms = mcp_get_monotonic_ms(),
+            .connect_time = time(NULL),
             .messages_processed = 0,
             .client_index = client_index
         };
@@ -215,8 +213,10 @@ void* tcp_accept_thread_func(void* arg) {
 #endif
         client_init.client_port = client_port;
 
-        // Update the client slot under lock
+        // Update the client slot under lock. It is active from here on: the handler may
+        // run, finish and free the slot before add_task returns.
         memcpy(&data->clients[client_index], &client_init, sizeof(tcp_client_connection_t));
+        tcp_stats_update_connection_accepted(&data->stats);
         mcp_mutex_unlock(data->client_mutex);
 
         // Add the client to the thread pool
@@ -224,37 +224,12 @@ void* tcp_accept_thread_func(void* arg) {
             mcp_log_error("Failed to add client handler task to thread pool for %s:%d (slot %d)",
                          client_ip, client_port, client_index);
 
-            // Close the socket
-            mcp_socket_close(client_socket);
-
-            // Reset the slot state under lock
-            mcp_mutex_lock(data->client_mutex);
-            data->clients[client_index].state = CLIENT_STATE_INACTIVE;
-            data->clients[client_index].socket = MCP_INVALID_SOCKET;
-            mcp_mutex_unlock(data->client_mutex);
-
+            // Close the socket and free the slot
+            tcp_close_client_connection(data, client_index);
             tcp_stats_update_error(&data->stats);
         } else {
-            // Successfully added to thread pool, mark state as ACTIVE under lock
-            mcp_mutex_lock(data->client_mutex);
-
-            // Check if state is still INITIALIZING (could have been changed by stop signal)
-            if (data->clients[client_index].state == CLIENT_STATE_INITIALIZING) {
-                data->clients[client_index].state = CLIENT_STATE_ACTIVE;
-
-                // Update statistics
-                tcp_stats_update_connection_accepted(&data->stats);
-
-                mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
-                            client_ip, client_port, (int)client_socket, client_index);
-            } else {
-                // State changed before we could mark active (likely stopped)
-                mcp_log_warn("Client slot %d state changed before activation", client_index);
-                data->clients[client_index].state = CLIENT_STATE_INACTIVE;
-                data->clients[client_index].socket = MCP_INVALID_SOCKET;
-            }
-
-            mcp_mutex_unlock(data->client_mutex);
+            mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
+                        client_ip, client_port, (int)client_socket, client_index);
         }
     }
 
diff --git a/src/transport/mcp_tcp_client_handler.c b/src/transport/mcp_tcp_client_handler.c
index 7d4deff..aa420bb 100644
--- a/src/transport/mcp_tcp_client_handler.c
+++ b/src/transport/mcp_tcp_client_handler.c
@@ -10,6 +10,7 @@
 #include "mcp_log.h"
 #include "mcp_buffer_pool.h"
 #include "mcp_types.h"
+#include "mcp_sys_utils.h"
 
 #ifdef _WIN32
 #include <winsock2.h>
@@ -47,6 +48,8 @@ void* tcp_client_handler_thread_func(void* arg) {
     const size_t ARENA_SIZE = 1024 * 1024;
     if (mcp_arena_init_current_thread(ARENA_SIZE) != 0) {
         mcp_log_error("Failed to initialize thread-local arena for client handler thread. Exiting.");
+        tcp_close_client_connection((mcp_tcp_transport_data_t*)client_conn->transport->transport_data,
+                                    client_conn->client_index);
         return NULL;
     }
 
@@ -57,8 +60,7 @@ void* tcp_client_handler_thread_func(void* arg) {
     uint32_t message_length_host;
     char* message_buf = NULL;
     int frame_result;
-    client_conn->should_stop = false;
-    client_conn->last_activity_time = time(NULL);
+    tcp_update_client_activity(client_conn);
 
 #ifdef _WIN32
     mcp_log_debug("Client handler started for socket %p", (void*)client_conn->socket);
@@ -80,9 +82,9 @@ void* tcp_client_handler_thread_func(void* arg) {
         // === End extra check ===
 
         // --- Calculate Deadline for Idle Timeout ---
-        time_t deadline = 0;
+        long long deadline = 0;
         if (tcp_data->idle_timeout_ms > 0) {
-            deadline = client_conn->last_activity_time + (tcp_data->idle_timeout_ms / 1000) + ((tcp_data->idle_timeout_ms % 1000) > 0 ? 1 : 0);
+            deadline = client_conn->last_activity_ms + (long long)tcp_data->idle_timeout_ms;
         }
 
         // --- 1. Wait for Data or Timeout ---
@@ -125,7 +127,7 @@ void* tcp_client_handler_thread_func(void* arg) {
             goto client_cleanup;
         } else if (wait_result == 0) {
             // Timeout
-            if (tcp_data->idle_timeout_ms > 0 && time(NULL) >= deadline) {
+            if (tcp_data->idle_timeout_ms > 0 && mcp_get_monotonic_ms() >= deadline) {
                 mcp_log_info("Idle timeout exceeded for socket %d. Closing connection.", (int)client_conn->socket);
                 mcp_log_debug("Handler %d: Exiting due to idle timeout.", (int)client_conn->socket);
                 goto client_cleanup;
@@ -165,7 +167,7 @@ void* tcp_client_handler_thread_func(void* arg) {
         }
 
         // Update activity time after successful receive
-        client_conn->last_activity_time = time(NULL);
+        tcp_update_client_activity(client_conn);
 
         // --- 3. Process Message via Callback ---
         // Ensure message is null-terminated for string operations
@@ -211,8 +213,11 @@ void* tcp_client_handler_thread_func(void* arg) {
         char* response_str = NULL;
         int callback_error_code = 0;
         if (transport->message_callback != NULL) {
+            client_conn->busy = true;
             response_str = transport->message_callback(transport->callback_user_data, message_buf,
                                                        message_length_host, &callback_error_code);
+            tcp_update_client_activity(client_conn);
+            client_conn->busy = false;
             mcp_log_debug("Message callback returned: error_code=%d, response=%s",
                          callback_error_code,
                          response_str ? "non-NULL" : "NULL");
@@ -284,7 +289,7 @@ void* tcp_client_handler_thread_func(void* arg) {
                 }
 
                 // Update activity time after successful send
-                client_conn->last_activity_time = time(NULL);
+                tcp_update_client_activity(client_conn);
 
                 // Update statistics
                 tcp_stats_update_message_sent(&tcp_data->stats, response_len);
@@ -316,46 +321,8 @@ client_cleanup:
         message_buf = NULL;
     }
 
-    // Socket handling with proper synchronization
-    socket_t sock_to_close = MCP_INVALID_SOCKET;
-    int client_index = -1;
-
-    // Critical section - update client state under lock
-    mcp_mutex_lock(tcp_data->client_mutex);
-
-    if (client_conn->state != CLIENT_STATE_INACTIVE) {
-        // Save socket and client index for operations outside the lock
-        sock_to_close = client_conn->socket;
-        client_index = client_conn->client_index;
-
-        // Update connection state
-        client_conn->socket = MCP_INVALID_SOCKET;
-        client_conn->state = CLIENT_STATE_INACTIVE;
-
-        // Update statistics
-        tcp_stats_update_connection_closed(&tcp_data->stats);
-
-        mcp_log_debug("Client connection slot %d marked as INACTIVE", client_index);
-    } else {
-        mcp_log_debug("Client connection already inactive, skipping cleanup");
-    }
-
-    mcp_mutex_unlock(tcp_data->client_mutex);
-
-    // Close socket outside of critical section
-    if (sock_to_close != MCP_INVALID_SOCKET) {
-        mcp_log_info("Closing client connection from %s:%d (socket %d, slot %d)",
-                    client_conn->client_ip, client_conn->client_port,
-                    (int)sock_to_close, client_index);
-
-        // Shutdown the socket before closing
-#ifdef _WIN32
-        shutdown(sock_to_close, SD_BOTH);
-#else
-        shutdown(sock_to_close, SHUT_RDWR);
-#endif
-        mcp_socket_close(sock_to_close);
-    }
+    // Close the socket and free the slot. The slot may be reused from here on.
+    tcp_close_client_connection(tcp_data, client_conn->client_index);
 
     // Clean up thread-local memory arena
     mcp_arena_destroy_current_thread();
diff --git a/src/transport/mcp_tcp_server_utils.c b/src/transport/mcp_tcp_server_utils.c
index 70427c8..1e2165d 100644
--- a/src/transport/mcp_tcp_server_utils.c
+++ b/src/transport/mcp_tcp_server_utils.c
@@ -50,6 +50,10 @@ void tcp_client_handler_wrapper(void* arg) {
         mcp_log_debug("Skipping client handler for invalid/stopped connection (index: %d, socket: %d, should_stop: %s, state: %d)",
                      client->client_index, (int)client->socket,
                      client->should_stop ? "true" : "false", (int)client->state);
+        if (client->transport && client->transport->transport_data) {
+            tcp_close_client_connection((mcp_tcp_transport_data_t*)client->transport->transport_data,
+                                        client->client_index);
+        }
         return;
     }
 
@@ -59,6 +63,7 @@ void tcp_client_handler_wrapper(void* arg) {
         if (!tcp_data->running) {
             mcp_log_debug("Skipping client handler for connection (index: %d) - server is shutting down",
                          client->client_index);
+            tcp_close_client_connection(tcp_data, client->client_index);
             return;
         }
     }
@@ -66,10 +71,8 @@ void tcp_client_handler_wrapper(void* arg) {
     mcp_log_debug("Handling client connection from %s:%d (index: %d)",
                  client->client_ip, client->client_port, client->client_index);
 
+    // The slot may belong to another connection once the handler returns
     tcp_client_handler_thread_func(client);
-
-    mcp_log_debug("Finished handling client connection from %s:%d (index: %d)",
-                 client->client_ip, client->client_port, client->client_index);
 }
 
 /**
@@ -86,7 +89,7 @@ void tcp_update_client_activity(tcp_client_connection_t* client) {
         return;
     }
 
-    client->last_activity_time = time(NULL);
+    client->last_activity_ms = mcp_get_monotonic_ms();
 }
 
 /**
@@ -223,24 +226,22 @@ void* tcp_cleanup_thread_func(void* arg) {
         counter = 0;
         mcp_log_debug("Checking for idle connections (timeout: %u ms)", data->idle_timeout_ms);
 
-        time_t current_time = time(NULL);
         mcp_mutex_lock(data->client_mutex);
+        long long current_ms = mcp_get_monotonic_ms();
 
         int idle_count = 0;
         for (int i = 0; i < data->max_clients; i++) {
             tcp_client_connection_t* client = &data->clients[i];
 
-            if (client->state != CLIENT_STATE_ACTIVE) {
+            // A client waiting for its answer is not idle
+            if (client->state != CLIENT_STATE_ACTIVE || client->busy) {
                 continue;
             }
 
-            uint32_t idle_time_ms = 0;
-            if (current_time > client->last_activity_time) {
-                idle_time_ms = (uint32_t)((current_time - client->last_activity_time) * 1000);
-            }
+            long long idle_time_ms = current_ms - client->last_activity_ms;
 
-            if (data->idle_timeout_ms > 0 && idle_time_ms >= data->idle_timeout_ms) {
-                mcp_log_info("Client %s:%d idle for %u ms (timeout: %u ms), marking for close",
+            if (data->idle_timeout_ms > 0 && idle_time_ms >= (long long)data->idle_timeout_ms) {
+                mcp_log_info("Client %s:%d idle for %lld ms (timeout: %u ms), marking for close",
                             client->client_ip, client->client_port,
                             idle_time_ms, data->idle_timeout_ms);
 
diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index a56bc69..3487fa8 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -232,6 +232,7 @@ static int tcp_transport_start(
     // Start the monitor thread for smart thread pool adjustment
     if (mcp_thread_create(&data->monitor_thread, tcp_transport_monitor_thread, data) != 0) {
         mcp_log_error("Failed to create monitor thread");
+        data->monitor_thread = 0;
         // Not fatal, continue without smart auto-adjustment
     }
 
@@ -256,22 +257,16 @@ static void tcp_transport_signal_clients_to_stop(mcp_tcp_transport_data_t* data)
             data->clients[i].should_stop = true;
 
             // Shutdown the socket to unblock recv operations
+            // The handler closes it and frees the slot.
+            if (data->clients[i].socket != MCP_INVALID_SOCKET) {
 #ifdef _WIN32
-            shutdown(data->clients[i].socket, SD_BOTH);
+                shutdown(data->clients[i].socket, SD_BOTH);
 #else
-            shutdown(data->clients[i].socket, SHUT_RDWR);
+                shutdown(data->clients[i].socket, SHUT_RDWR);
 #endif
-
-            // Close the socket
-            if (data->clients[i].socket != MCP_INVALID_SOCKET) {
-                mcp_socket_close(data->clients[i].socket);
-                data->clients[i].socket = MCP_INVALID_SOCKET;
             }
 
-            // Mark as inactive
-            data->clients[i].state = CLIENT_STATE_INACTIVE;
-
-            mcp_log_debug("Closed client connection %d", i);
+            mcp_log_debug("Signalled client connection %d to stop", i);
         }
     }
 
@@ -303,12 +298,7 @@ static void tcp_transport_signal_accept_thread(mcp_tcp_transport_data_t* data) {
         }
     }
 
-    // Also close the listening socket
-    if (data->listen_socket != MCP_INVALID_SOCKET) {
-        shutdown(data->listen_socket, SHUT_RDWR);
-        mcp_socket_close(data->listen_socket);
-        data->listen_socket = MCP_INVALID_SOCKET;
-    }
+    // The listening socket is closed once the accept thread has finished
 #endif
 }
 
@@ -352,6 +342,9 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
         mcp_log_debug("Accept thread stopped");
     }
 
+    // No further connections: tell the connected clients' handlers to stop
+    tcp_transport_signal_clients_to_stop(data);
+
     // Stop the cleanup thread
     if (data->cleanup_running) {
         mcp_log_debug("Stopping cleanup thread...");
@@ -372,8 +365,7 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
         mcp_log_debug("Monitor thread stopped");
     }
 
-    // Wait for thread pool tasks to complete BEFORE signaling clients to stop
-    // This prevents the race condition where tasks try to start handlers for invalid sockets
+    // Wait for the handlers to finish
     if (data->thread_pool) {
         const int THREAD_POOL_WAIT_TIMEOUT_MS = 2000; // 2 seconds
 
@@ -382,14 +374,15 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
 
         mcp_thread_pool_wait(data->thread_pool, THREAD_POOL_WAIT_TIMEOUT_MS);
 
-        // Destroy thread pool before closing client connections
         mcp_log_debug("Destroying thread pool...");
         mcp_thread_pool_destroy(data->thread_pool);
         data->thread_pool = NULL;
     }
 
-    // Signal all client connections to stop AFTER thread pool is destroyed
-    tcp_transport_signal_clients_to_stop(data);
+    // Close connections whose handler never got to run
+    for (int i = 0; i < data->max_clients; i++) {
+        tcp_close_client_connection(data, i);
+    }
 
     // Clean up resources
     tcp_transport_cleanup_resources(data);
@@ -477,7 +470,7 @@ static int tcp_transport_init_client_slots(mcp_tcp_transport_data_t* data) {
         data->clients[i].socket = MCP_INVALID_SOCKET;
         data->clients[i].client_index = i;
         data->clients[i].should_stop = false;
-        data->clients[i].last_activity_time = 0;
+        data->clients[i].last_activity_ms = 0;
     }
 
     return 0;
-- 
2.43.0


From ed4b6fd38c4f1611a7eed18f08755d5693b06319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:14 +0000
Subject: [PATCH 17/63] fix: TCP client transport reconnects after every loss
 and sends whole messages

Only the first loss of a connection was ever followed by a reconnection, and a
loss noticed by the receiver by none. Messages sent by several threads could be
interleaved, and sockets were closed while still in use. Stopping waited for the
whole delay between attempts.
---
 .../internal/tcp_client_transport_internal.h  |  13 +-
 src/transport/mcp_tcp_client_receiver.c       |  81 ++--
 src/transport/mcp_tcp_client_reconnect.c      | 371 +++++++++---------
 src/transport/mcp_tcp_client_transport.c      | 218 +++++-----
 4 files changed, 346 insertions(+), 337 deletions(-)

diff --git a/src/transport/internal/tcp_client_transport_internal.h b/src/transport/internal/tcp_client_transport_internal.h
index 22be15e..b81bb1e 100644
--- a/src/transport/internal/tcp_client_transport_internal.h
+++ b/src/transport/internal/tcp_client_transport_internal.h
@@ -16,8 +16,6 @@
 #include <stdbool.h>
 #include <errno.h>
 
-extern bool reconnection_in_progress;
-
 // Constants (can reuse from other internal headers if appropriate, but define here for clarity)
 #define MAX_MCP_MESSAGE_SIZE (1024 * 1024)      //1MB limit
 #define POOL_BUFFER_SIZE (1024 * 8)             // 8KB buffer size
@@ -36,7 +34,7 @@ typedef struct {
     uint16_t port;
     socket_t sock;
     volatile bool running;
-    bool connected;
+    volatile bool connected;
     mcp_transport_t* transport_handle; // Pointer back to the main handle (contains callbacks)
     mcp_thread_t receive_thread;
     mcp_buffer_pool_t* buffer_pool; // Buffer pool for message buffers
@@ -46,8 +44,10 @@ typedef struct {
     bool reconnect_enabled; // Whether reconnection is enabled
     int reconnect_attempt; // Current reconnection attempt number
     mcp_thread_t reconnect_thread; // Thread for reconnection timer
-    volatile bool reconnect_thread_running; // Flag to control reconnect thread
-    mcp_mutex_t* reconnect_mutex; // Mutex to protect reconnection state
+    volatile bool reconnect_thread_running; // A reconnection is under way
+    mcp_mutex_t* reconnect_mutex; // Mutex to protect the socket and the connection and reconnection state
+    mcp_cond_t* reconnect_cond; // Signalled when reconnecting is to stop or has ended
+    mcp_mutex_t* send_mutex; // Keeps messages whole and the socket open while sending; taken before reconnect_mutex
 
     // Connection state tracking
     mcp_connection_state_t connection_state; // Current connection state
@@ -55,7 +55,10 @@ typedef struct {
     void* state_callback_user_data; // User data for state callback
 } mcp_tcp_client_transport_data_t;
 
+// Caller must hold reconnect_mutex
 void mcp_tcp_client_update_connection_state(mcp_tcp_client_transport_data_t* data, mcp_connection_state_t new_state);
 void* tcp_client_receive_thread_func(void* arg);
+int tcp_client_send_ping(socket_t sock);
+void tcp_client_connection_lost(mcp_transport_t* transport, socket_t sock);
 
 #endif // TCP_CLIENT_TRANSPORT_INTERNAL_H
diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index c0f84a6..7e48425 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -29,9 +29,6 @@
 #define SELECT_TIMEOUT_SEC 1               // 1 second timeout for select()
 #define SELECT_TIMEOUT_USEC 0              // 0 microseconds
 
-// External global flag variable (defined in mcp_tcp_client_reconnect.c)
-extern bool reconnection_in_progress;
-
 // Define standard ping messages
 static const char PING_MESSAGE_NO_AUTH[] = "{\"jsonrpc\":\"2.0\",\"method\":\"ping\",\"params\":{},\"id\":0}";
 static const char PING_MESSAGE_WITH_AUTH[] = "{\"jsonrpc\":\"2.0\",\"method\":\"ping\",\"params\":{\"apiKey\":\"TEST_API_KEY_123\"},\"id\":0}";
@@ -43,19 +40,16 @@ static const char PING_MESSAGE_WITH_AUTH[] = "{\"jsonrpc\":\"2.0\",\"method\":\"
  * that the connection is working. It uses vectored I/O to efficiently
  * send the length prefix and message content in a single operation.
  *
- * @param data The TCP client transport data
+ * Called before others can send on the connection.
+ *
+ * @param sock The socket of the new connection
  * @return 0 on success, -1 on failure
  */
-static int send_ping_message(mcp_tcp_client_transport_data_t* data) {
-    if (!data) {
-        mcp_log_error("NULL data parameter in send_ping_message");
-        return -1;
-    }
-
+int tcp_client_send_ping(socket_t sock) {
     mcp_log_info("Preparing client ping message...");
 
     // Ensure connection is established
-    if (!data->connected || data->sock == MCP_INVALID_SOCKET) {
+    if (sock == MCP_INVALID_SOCKET) {
         mcp_log_error("Cannot send ping, socket not connected");
         return -1;
     }
@@ -94,7 +88,7 @@ static int send_ping_message(mcp_tcp_client_transport_data_t* data) {
 
     // Send using the socket utility function
     mcp_log_debug("Sending ping message (length: %u bytes)", content_length);
-    int send_status = mcp_socket_send_vectors(data->sock, iov, 2, NULL);
+    int send_status = mcp_socket_send_vectors(sock, iov, 2, NULL);
 
     if (send_status != 0) {
         int error_code = mcp_socket_get_lasterror();
@@ -127,24 +121,29 @@ void* tcp_client_receive_thread_func(void* arg) {
         return NULL;
     }
 
-    // --- Initialize Thread-Local Arena for this receiver thread ---
-    if (mcp_arena_init_current_thread(RECEIVER_ARENA_SIZE) != 0) {
-        mcp_log_error("Failed to initialize thread-local arena for receiver thread");
-        return NULL;
-    }
-    mcp_log_debug("Thread-local arena initialized for receiver thread (size: %d bytes)",
-                 RECEIVER_ARENA_SIZE);
-
     // Extract transport and data from argument
     mcp_transport_t* transport = (mcp_transport_t*)arg;
     if (!transport->transport_data) {
         mcp_log_error("Invalid transport data in receiver thread");
-        mcp_arena_destroy_current_thread();
         return NULL;
     }
 
     mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
 
+    // The socket of this connection; it stays open until this thread has been joined
+    mcp_mutex_lock(data->reconnect_mutex);
+    socket_t sock = data->sock;
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    // --- Initialize Thread-Local Arena for this receiver thread ---
+    if (mcp_arena_init_current_thread(RECEIVER_ARENA_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena for receiver thread");
+        tcp_client_connection_lost(transport, sock);
+        return NULL;
+    }
+    mcp_log_debug("Thread-local arena initialized for receiver thread (size: %d bytes)",
+                 RECEIVER_ARENA_SIZE);
+
     // Initialize variables for message reception
     uint32_t message_length_host = 0;
     char* message_buf = NULL;
@@ -155,21 +154,7 @@ void* tcp_client_receive_thread_func(void* arg) {
     bool error_signaled = false;
 
     // Log thread startup
-    mcp_log_info("TCP client receive thread started for socket %d", (int)data->sock);
-
-    // Check if this is a thread startup during reconnection
-    if (reconnection_in_progress) {
-        mcp_log_info("Skipping initial ping due to reconnection");
-        reconnection_in_progress = false;
-    } else {
-        // Send ping on first connection to verify connectivity
-        mcp_log_debug("Sending initial ping message to verify connection");
-        if (send_ping_message(data) != 0) {
-            mcp_log_error("Failed to send initial ping message, exiting receiver thread");
-            mcp_arena_destroy_current_thread();
-            return NULL;
-        }
-    }
+    mcp_log_info("TCP client receive thread started for socket %d", (int)sock);
 
     // We use non-blocking socket operations with select() instead of a timeout
     // This allows us to periodically check if we should exit without disconnecting
@@ -177,7 +162,7 @@ void* tcp_client_receive_thread_func(void* arg) {
     // Main message reception loop
     while (data->running) {
         // Check connection status
-        if (!data->connected || data->sock == MCP_INVALID_SOCKET) {
+        if (!data->connected || sock == MCP_INVALID_SOCKET) {
             mcp_log_info("Connection lost or invalid socket, exiting receive thread");
             break;
         }
@@ -188,7 +173,7 @@ void* tcp_client_receive_thread_func(void* arg) {
 
         // Initialize the file descriptor set
         FD_ZERO(&read_fds);
-        FD_SET(data->sock, &read_fds);
+        FD_SET(sock, &read_fds);
 
         // Set the timeout using constants
         tv.tv_sec = SELECT_TIMEOUT_SEC;
@@ -196,7 +181,7 @@ void* tcp_client_receive_thread_func(void* arg) {
 
         // Wait for data or timeout
         // The first parameter is the highest file descriptor value plus one
-        int select_result = select((int)data->sock + 1, &read_fds, NULL, NULL, &tv);
+        int select_result = select((int)sock + 1, &read_fds, NULL, NULL, &tv);
 
         // Check if we should exit (running flag may have changed during select)
         if (!data->running) {
@@ -217,7 +202,6 @@ void* tcp_client_receive_thread_func(void* arg) {
 
             // Handle other select errors
             mcp_log_error("select() failed with error: %d", last_error);
-            data->connected = false;
 
             // Call error callback if set
             if (transport->error_callback && !error_signaled) {
@@ -233,11 +217,11 @@ void* tcp_client_receive_thread_func(void* arg) {
         }
 
         // Data is available, receive it
-        mcp_log_debug("Data available on socket %d, receiving message", (int)data->sock);
+        mcp_log_debug("Data available on socket %d, receiving message", (int)sock);
 
         // Receive the message using length-prefix framing
         frame_result = mcp_framing_recv_message(
-            data->sock,
+            sock,
             &message_buf,           // Let framing function allocate buffer
             &message_length_host,   // Will receive the message length
             MAX_MCP_MESSAGE_SIZE,   // Maximum allowed message size
@@ -253,7 +237,7 @@ void* tcp_client_receive_thread_func(void* arg) {
             if (data->running) {
                 // Log the error with details
                 mcp_log_error("Failed to receive message on socket %d (result: %d, error: %d)",
-                             (int)data->sock, frame_result, last_error);
+                             (int)sock, frame_result, last_error);
 
                 // Call error callback if set and not already called
                 if (transport->error_callback && !error_signaled) {
@@ -263,12 +247,9 @@ void* tcp_client_receive_thread_func(void* arg) {
             } else {
                 // Thread was stopped externally during receive
                 mcp_log_debug("Receive thread for socket %d stopped during message reception",
-                             (int)data->sock);
+                             (int)sock);
             }
 
-            // Mark as disconnected
-            data->connected = false;
-
             // Free message buffer if allocated
             // (should be NULL if framing function failed before allocation)
             if (message_buf != NULL) {
@@ -330,10 +311,10 @@ void* tcp_client_receive_thread_func(void* arg) {
     }
 
     // Loop has exited - thread is shutting down
-    mcp_log_info("TCP client receive thread exiting for socket %d", (int)data->sock);
+    mcp_log_info("TCP client receive thread exiting for socket %d", (int)sock);
 
-    // Mark as disconnected
-    data->connected = false;
+    // Mark as disconnected and reconnect if enabled
+    tcp_client_connection_lost(transport, sock);
 
     // Final check if message buffer was properly released
     if (message_buf != NULL) {
diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 8f970f8..346503a 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -7,6 +7,7 @@
  * and automatic reconnection attempts.
  */
 #include "internal/tcp_client_transport_internal.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <time.h>
 #include <math.h>
@@ -18,52 +19,10 @@
 #include <windows.h>
 #else
 #include <pthread.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
 
-// Global flag to indicate reconnection is in progress
-// This is accessed by other files, so it must remain a non-static global
-bool reconnection_in_progress = false;
-
-// Global mutex for thread-safe access to reconnection_in_progress
-static mcp_mutex_t* g_reconnect_mutex = NULL;
-static bool g_mutex_initialized = false;
-
-// Initialize global mutex if not already initialized
-static void init_global_mutex(void) {
-    if (!g_mutex_initialized) {
-        g_reconnect_mutex = mcp_mutex_create();
-        if (!g_reconnect_mutex) {
-            mcp_log_error("Failed to create global reconnect mutex");
-            return;
-        }
-        g_mutex_initialized = true;
-    }
-}
-
-// Thread-safe check if reconnection is in progress
-bool is_reconnection_in_progress(void) {
-    if (!g_mutex_initialized) {
-        return false;
-    }
-    
-    mcp_mutex_lock(g_reconnect_mutex);
-    bool in_progress = reconnection_in_progress;
-    mcp_mutex_unlock(g_reconnect_mutex);
-    return in_progress;
-}
-
-// Thread-safe set reconnection in progress
-static void set_reconnection_in_progress(bool in_progress) {
-    if (!g_mutex_initialized) {
-        return;
-    }
-    
-    mcp_mutex_lock(g_reconnect_mutex);
-    reconnection_in_progress = in_progress;
-    mcp_mutex_unlock(g_reconnect_mutex);
-}
-
 /**
  * @brief String formatting helper function with static buffer
  * 
@@ -242,6 +201,9 @@ static uint32_t calculate_reconnect_delay(const mcp_reconnect_config_t* config,
  * starts the receiver thread if successful. It handles cleanup of any
  * existing socket and updates the connection state accordingly.
  *
+ * Called without locks by whoever has set reconnect_thread_running, which is
+ * cleared on success.
+ *
  * @param data The TCP client transport data
  * @return 0 on success, non-zero on failure
  */
@@ -262,28 +224,54 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
                 data->host, data->port, data->reconnect_attempt,
                 max_attempts > 0 ? mcp_string_format("%d", max_attempts) : "unlimited");
 
+    // The receiver of the lost connection is about to finish
+    mcp_mutex_lock(data->reconnect_mutex);
+    mcp_thread_t old_receiver = data->receive_thread;
+    data->receive_thread = 0;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (old_receiver) {
+        mcp_thread_join(old_receiver, NULL);
+    }
+
     // Close existing socket if any
-    if (data->sock != MCP_INVALID_SOCKET) {
+    mcp_mutex_lock(data->send_mutex);
+    mcp_mutex_lock(data->reconnect_mutex);
+    socket_t old_sock = data->sock;
+    data->sock = MCP_INVALID_SOCKET;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (old_sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Closing existing socket before reconnection attempt");
-        mcp_socket_close(data->sock);
-        data->sock = MCP_INVALID_SOCKET;
+        mcp_socket_close(old_sock);
     }
+    mcp_mutex_unlock(data->send_mutex);
 
     // Attempt to connect with a timeout (5 seconds)
     const int CONNECT_TIMEOUT_MS = 5000;
-    data->sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
-    if (data->sock == MCP_INVALID_SOCKET) {
+    socket_t sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
+    if (sock == MCP_INVALID_SOCKET) {
         mcp_log_error("Reconnection attempt %d failed", data->reconnect_attempt);
         return -1;
     }
 
+    // Send ping on a new connection to verify connectivity
+    if (tcp_client_send_ping(sock) != 0) {
+        mcp_log_error("Reconnection attempt %d failed to send ping message", data->reconnect_attempt);
+        mcp_socket_close(sock);
+        return -1;
+    }
+
+    mcp_mutex_lock(data->reconnect_mutex);
+    if (!data->running) {
+        mcp_mutex_unlock(data->reconnect_mutex);
+        mcp_socket_close(sock);
+        return -1;
+    }
+
     // Connection successful
+    data->sock = sock;
     data->connected = true;
     mcp_log_info("Reconnected successfully to %s:%u", data->host, data->port);
 
-    // Set global reconnection in progress flag
-    set_reconnection_in_progress(true);
-
     // Start receiver thread
     if (mcp_thread_create(&data->receive_thread, tcp_client_receive_thread_func, data->transport_handle) != 0) {
         mcp_log_error("Failed to create receiver thread after reconnection");
@@ -291,8 +279,9 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
         // Clean up on failure
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
+        data->receive_thread = 0;
         data->connected = false;
-        set_reconnection_in_progress(false);
+        mcp_mutex_unlock(data->reconnect_mutex);
 
         return -1;
     }
@@ -303,6 +292,11 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
     // Reset reconnection attempt counter on successful reconnection
     data->reconnect_attempt = 0;
 
+    // The new connection may be lost at once: from here on a new reconnection may start
+    data->reconnect_thread_running = false;
+    mcp_cond_broadcast(data->reconnect_cond);
+    mcp_mutex_unlock(data->reconnect_mutex);
+
     return 0;
 }
 
@@ -340,40 +334,12 @@ void* tcp_client_reconnect_thread_func(void* arg) {
 
     mcp_log_info("Reconnect thread started");
 
-    // Create a condition variable for efficient waiting with interrupt capability
-    mcp_cond_t* wait_cond = mcp_cond_create();
-    if (!wait_cond) {
-        mcp_log_error("Failed to create condition variable for reconnect thread");
-        return NULL;
-    }
-
     // Main reconnection loop
-    while (data->reconnect_thread_running) {
-        // Lock mutex to access shared reconnection state
-        mcp_mutex_lock(data->reconnect_mutex);
-
-        // Check if we should continue reconnecting
-        bool should_stop = false;
-
+    mcp_mutex_lock(data->reconnect_mutex);
+    while (data->running) {
         // Stop if reconnection is disabled
         if (!data->reconnect_enabled) {
             mcp_log_debug("Reconnection disabled, stopping reconnect thread");
-            should_stop = true;
-        }
-        // Stop if already connected
-        else if (data->connected) {
-            mcp_log_debug("Already connected, stopping reconnect thread");
-            should_stop = true;
-        }
-        // Stop if maximum attempts reached
-        else if (data->reconnect_config.max_reconnect_attempts > 0 &&
-                 data->reconnect_attempt > data->reconnect_config.max_reconnect_attempts) {
-            mcp_log_debug("Maximum reconnection attempts reached, stopping reconnect thread");
-            should_stop = true;
-        }
-
-        if (should_stop) {
-            mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
 
@@ -385,65 +351,93 @@ void* tcp_client_reconnect_thread_func(void* arg) {
 
         // Wait using condition variable with timeout
         // This allows the thread to be woken up early if needed (e.g., when stopping)
-        mcp_cond_timedwait(wait_cond, data->reconnect_mutex, delay_ms);
+        long long wait_end = mcp_get_monotonic_ms() + (long long)delay_ms;
+        long long remaining;
+        while (data->running && (remaining = wait_end - mcp_get_monotonic_ms()) > 0) {
+            mcp_cond_timedwait(data->reconnect_cond, data->reconnect_mutex, (uint32_t)remaining);
+        }
 
         // Check if we were interrupted or if the thread should exit
-        if (!data->reconnect_thread_running) {
+        if (!data->running) {
             mcp_log_debug("Reconnect thread interrupted during wait");
-            mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
 
         // Update state to reconnecting
         mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_RECONNECTING);
-
-        // Format max attempts string for logging
-        const char* max_attempts_str;
-        if (data->reconnect_config.max_reconnect_attempts > 0) {
-            max_attempts_str = mcp_string_format("%d", data->reconnect_config.max_reconnect_attempts);
-        } else {
-            max_attempts_str = "unlimited";
-        }
-
-        mcp_log_info("Attempting reconnection (attempt %d/%s)",
-                    data->reconnect_attempt, max_attempts_str);
+        mcp_mutex_unlock(data->reconnect_mutex);
 
         // Attempt to reconnect
         if (attempt_reconnect(data) == 0) {
             // Reconnection successful
             mcp_log_info("Reconnection successful, exiting reconnect thread");
-            mcp_mutex_unlock(data->reconnect_mutex);
-            break;
+            return NULL;
         }
 
+        mcp_mutex_lock(data->reconnect_mutex);
+
         // Increment attempt counter
         data->reconnect_attempt++;
 
         // Check if we've reached the maximum number of attempts
-        if (data->reconnect_config.max_reconnect_attempts > 0 &&
+        if (data->running && data->reconnect_config.max_reconnect_attempts > 0 &&
             data->reconnect_attempt > data->reconnect_config.max_reconnect_attempts) {
             mcp_log_error("Maximum reconnection attempts (%d) reached",
                          data->reconnect_config.max_reconnect_attempts);
 
             // Update connection state to failed
             mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
-
-            mcp_mutex_unlock(data->reconnect_mutex);
             break;
         }
-
-        mcp_mutex_unlock(data->reconnect_mutex);
     }
 
-    // Clean up condition variable
-    if (wait_cond) {
-        mcp_cond_destroy(wait_cond);
-    }
+    data->reconnect_thread_running = false;
+    mcp_cond_broadcast(data->reconnect_cond);
+    mcp_mutex_unlock(data->reconnect_mutex);
 
     mcp_log_info("Reconnect thread exiting");
     return NULL;
 }
 
+/**
+ * @brief Creates the reconnection thread.
+ *
+ * Called with reconnect_mutex held and reconnect_thread_running set.
+ *
+ * @param transport The transport handle
+ * @return 0 on success, non-zero on error
+ */
+static int create_reconnect_thread(mcp_transport_t* transport) {
+    mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
+
+    // An earlier reconnection thread has left its last critical section by now
+    if (data->reconnect_thread) {
+        mcp_thread_join(data->reconnect_thread, NULL);
+        data->reconnect_thread = 0;
+    }
+
+    int thread_result = mcp_thread_create(
+        &data->reconnect_thread,
+        tcp_client_reconnect_thread_func,
+        transport
+    );
+    if (thread_result != 0) {
+        mcp_log_error("Failed to create reconnection thread (error: %d)", thread_result);
+
+        // Reset flag on failure
+        data->reconnect_thread = 0;
+        data->reconnect_thread_running = false;
+        mcp_cond_broadcast(data->reconnect_cond);
+
+        // Update connection state to failed
+        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
+        return -1;
+    }
+
+    mcp_log_debug("Reconnection thread created successfully");
+    return 0;
+}
+
 /**
  * @brief Starts the reconnection process.
  *
@@ -465,6 +459,18 @@ int start_reconnection_process(mcp_transport_t* transport) {
     // Lock mutex to access shared reconnection state
     mcp_mutex_lock(data->reconnect_mutex);
 
+    // Check if the transport is being stopped or the connection is fine
+    if (!data->running || data->connected) {
+        mcp_mutex_unlock(data->reconnect_mutex);
+        return 0;
+    }
+
+    // A connection that failed for good is only taken up again on request
+    if (data->connection_state == MCP_CONNECTION_STATE_FAILED) {
+        mcp_mutex_unlock(data->reconnect_mutex);
+        return -1;
+    }
+
     // Check if reconnection is enabled
     if (!data->reconnect_enabled) {
         mcp_log_debug("Reconnection is disabled, not starting reconnection process");
@@ -487,38 +493,48 @@ int start_reconnection_process(mcp_transport_t* transport) {
     // Update connection state to reconnecting
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_RECONNECTING);
 
-    // Set flag and update global state before creating thread
+    // Set flag before creating thread
     data->reconnect_thread_running = true;
-    set_reconnection_in_progress(true);
-
-    // Create reconnection thread
-    int thread_result = mcp_thread_create(
-        &data->reconnect_thread,
-        tcp_client_reconnect_thread_func,
-        transport
-    );
-    if (thread_result == 0) {
-        mcp_log_debug("Reconnection thread created successfully");
-    }
+    int result = create_reconnect_thread(transport);
 
-    if (thread_result != 0) {
-        mcp_log_error("Failed to create reconnection thread (error: %d)", thread_result);
-
-        // Reset flags on failure
-        data->reconnect_thread_running = false;
-        set_reconnection_in_progress(false);
+    mcp_mutex_unlock(data->reconnect_mutex);
+    return result;
+}
 
-        // Update connection state to failed
-        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
-        
-        mcp_log_error("Failed to start reconnection thread (error: %d)", thread_result);
+/**
+ * @brief Handles the loss of a connection.
+ *
+ * Marks the transport as disconnected, wakes up whoever uses the socket and
+ * starts reconnecting if enabled. Does nothing if the socket is not that of the
+ * current connection. The socket stays open until it is replaced or the
+ * transport stops.
+ *
+ * @param transport The transport handle
+ * @param sock The socket whose connection is lost
+ */
+void tcp_client_connection_lost(mcp_transport_t* transport, socket_t sock) {
+    mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
 
+    mcp_mutex_lock(data->reconnect_mutex);
+    if (!data->running || !data->connected || data->sock != sock) {
         mcp_mutex_unlock(data->reconnect_mutex);
-        return -1;
+        return;
     }
 
+    data->connected = false;
+#ifdef _WIN32
+    shutdown(sock, SD_BOTH);
+#else
+    shutdown(sock, SHUT_RDWR);
+#endif
+    mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+    bool reconnect = data->reconnect_enabled;
     mcp_mutex_unlock(data->reconnect_mutex);
-    return 0;
+
+    if (reconnect) {
+        mcp_log_info("Starting reconnection process after connection loss");
+        start_reconnection_process(transport);
+    }
 }
 
 /**
@@ -526,6 +542,7 @@ int start_reconnection_process(mcp_transport_t* transport) {
  *
  * This function stops any ongoing reconnection process by signaling
  * the reconnection thread to exit and waiting for it to complete.
+ * The transport must have been marked as not running.
  * It properly handles thread synchronization to ensure clean shutdown.
  *
  * @param transport The transport handle
@@ -541,38 +558,23 @@ void stop_reconnection_process(mcp_transport_t* transport) {
     // Lock mutex to access shared reconnection state
     mcp_mutex_lock(data->reconnect_mutex);
 
-    // Check if reconnection thread is running
-    if (data->reconnect_thread_running) {
+    // Wake up the thread; it exits as the transport is not running any more
+    while (data->reconnect_thread_running) {
         mcp_log_info("Stopping reconnection process");
+        mcp_cond_broadcast(data->reconnect_cond);
+        mcp_cond_timedwait(data->reconnect_cond, data->reconnect_mutex, 1000);
+    }
 
-        // Signal thread to stop
-        data->reconnect_thread_running = false;
-
-        // Unlock mutex while waiting for thread to exit
-        // This is important to avoid deadlock, as the thread needs to
-        // acquire the mutex to check the running flag
-        mcp_mutex_unlock(data->reconnect_mutex);
+    mcp_thread_t thread = data->reconnect_thread;
+    data->reconnect_thread = 0;
+    mcp_mutex_unlock(data->reconnect_mutex);
 
-        // Wait for thread to exit with timeout
-        if (data->reconnect_thread) {
-            const int THREAD_JOIN_TIMEOUT_MS = 5000; // 5 second timeout
-            mcp_log_debug("Waiting for reconnection thread to exit (timeout: %d ms)", THREAD_JOIN_TIMEOUT_MS);
-        
-            // Try to join the thread
-            // Note: Using mcp_thread_join without timeout for now
-            // In the future, consider implementing a proper timed join if needed
-            int join_result = mcp_thread_join(data->reconnect_thread, NULL);
-            if (join_result != 0) {
-                mcp_log_warn("Reconnection thread did not exit cleanly (error: %d)", join_result);
-            }
-        
-            data->reconnect_thread = 0;
-            set_reconnection_in_progress(false);
-            mcp_log_debug("Reconnection thread has exited");
+    if (thread) {
+        int join_result = mcp_thread_join(thread, NULL);
+        if (join_result != 0) {
+            mcp_log_warn("Reconnection thread did not exit cleanly (error: %d)", join_result);
         }
-    } else {
-        mcp_log_debug("No reconnection process running");
-        mcp_mutex_unlock(data->reconnect_mutex);
+        mcp_log_debug("Reconnection thread has exited");
     }
 }
 
@@ -666,6 +668,13 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
     // Lock mutex to access shared reconnection state
     mcp_mutex_lock(data->reconnect_mutex);
 
+    // Check if the transport has been started
+    if (!data->running) {
+        mcp_log_error("Transport not running, ignoring manual reconnect request");
+        mcp_mutex_unlock(data->reconnect_mutex);
+        return -1;
+    }
+
     // Check if already connected
     if (data->connected) {
         mcp_log_info("Already connected, ignoring manual reconnect request");
@@ -696,39 +705,25 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
 
     // Try immediate reconnection first
     mcp_log_info("Attempting immediate reconnection");
-    int result = attempt_reconnect(data);
+    data->reconnect_thread_running = true;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (attempt_reconnect(data) == 0) {
+        mcp_log_info("Immediate reconnection successful");
+        return 0;
+    }
+
     // If immediate reconnection failed, start reconnection process with backoff
-    if (result != 0) {
+    mcp_mutex_lock(data->reconnect_mutex);
+    int result = 0;
+    if (data->running) {
         mcp_log_info("Immediate reconnection failed, starting reconnection process");
-
-        // Set flag before creating thread
-        data->reconnect_thread_running = true;
-
-        // Create reconnection thread
-        int thread_result = mcp_thread_create(
-            &data->reconnect_thread,
-            tcp_client_reconnect_thread_func,
-            transport
-        );
-
-        if (thread_result != 0) {
-            mcp_log_error("Failed to create reconnection thread (error: %d)", thread_result);
-
-            // Reset flag on failure
-            data->reconnect_thread_running = false;
-
-            // Update connection state to failed
-            mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
-
-            mcp_mutex_unlock(data->reconnect_mutex);
-            return -1;
-        }
-
-        mcp_log_debug("Reconnection thread created for manual reconnect");
+        result = create_reconnect_thread(transport);
     } else {
-        mcp_log_info("Immediate reconnection successful");
+        data->reconnect_thread_running = false;
+        mcp_cond_broadcast(data->reconnect_cond);
+        result = -1;
     }
 
     mcp_mutex_unlock(data->reconnect_mutex);
-    return 0;
+    return result;
 }
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index d63d03f..dccf9c1 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -55,23 +55,35 @@ static int establish_connection(mcp_tcp_client_transport_data_t* data) {
     }
 
     // Update connection state to connecting
+    mcp_mutex_lock(data->reconnect_mutex);
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_CONNECTING);
+    mcp_mutex_unlock(data->reconnect_mutex);
 
     // Establish connection with timeout
-    data->sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
+    socket_t sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
 
-    if (data->sock == MCP_INVALID_SOCKET) {
+    if (sock == MCP_INVALID_SOCKET) {
         mcp_log_error("Failed to connect to server %s:%u", data->host, data->port);
         return -1;
     }
 
+    // Send ping on a new connection to verify connectivity
+    if (tcp_client_send_ping(sock) != 0) {
+        mcp_log_error("Failed to send ping message to server %s:%u", data->host, data->port);
+        mcp_socket_close(sock);
+        return -1;
+    }
+
     // Connection successful
+    mcp_mutex_lock(data->reconnect_mutex);
+    data->sock = sock;
     data->connected = true;
     data->reconnect_attempt = 0; // Reset reconnection attempt counter
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_CONNECTED);
+    mcp_mutex_unlock(data->reconnect_mutex);
 
     mcp_log_info("Connected to %s:%u (socket %d)",
-                data->host, data->port, (int)data->sock);
+                data->host, data->port, (int)sock);
 
     return 0;
 }
@@ -84,12 +96,17 @@ static int establish_connection(mcp_tcp_client_transport_data_t* data) {
 static void cleanup_connection(mcp_tcp_client_transport_data_t* data) {
     if (!data) return;
 
-    if (data->sock != MCP_INVALID_SOCKET) {
-        mcp_socket_close(data->sock);
-        data->sock = MCP_INVALID_SOCKET;
-    }
-
+    mcp_mutex_lock(data->send_mutex);
+    mcp_mutex_lock(data->reconnect_mutex);
+    socket_t sock = data->sock;
+    data->sock = MCP_INVALID_SOCKET;
     data->connected = false;
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    if (sock != MCP_INVALID_SOCKET) {
+        mcp_socket_close(sock);
+    }
+    mcp_mutex_unlock(data->send_mutex);
 }
 
 /**
@@ -139,15 +156,16 @@ static int tcp_client_transport_start(
         // If reconnection is enabled, start reconnection process
         if (data->reconnect_enabled) {
             mcp_log_info("Starting reconnection process after initial connection failure");
-            start_reconnection_process(transport);
-
             // Mark as running even though not connected yet
             data->running = true;
+            start_reconnection_process(transport);
             return 0;
         }
 
         // Otherwise, fail
+        mcp_mutex_lock(data->reconnect_mutex);
         mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
+        mcp_mutex_unlock(data->reconnect_mutex);
         mcp_socket_cleanup();
         return -1;
     }
@@ -155,14 +173,22 @@ static int tcp_client_transport_start(
     // Mark as running
     data->running = true;
 
-    // Start receiver thread
-    if (mcp_thread_create(&data->receive_thread, tcp_client_receive_thread_func, transport) != 0) {
+    // Start receiver thread. It cannot report a loss before its handle is stored.
+    mcp_mutex_lock(data->reconnect_mutex);
+    int thread_result = mcp_thread_create(&data->receive_thread, tcp_client_receive_thread_func, transport);
+    if (thread_result != 0) {
+        data->receive_thread = 0;
+    }
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (thread_result != 0) {
         mcp_log_error("Failed to create receiver thread");
 
         // Clean up on failure
-        cleanup_connection(data);
         data->running = false;
+        cleanup_connection(data);
+        mcp_mutex_lock(data->reconnect_mutex);
         mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_FAILED);
+        mcp_mutex_unlock(data->reconnect_mutex);
         mcp_socket_cleanup();
         return -1;
     }
@@ -189,23 +215,19 @@ static int tcp_client_transport_stop(mcp_transport_t* transport) {
     mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
 
     // Check if already stopped
+    mcp_mutex_lock(data->reconnect_mutex);
     if (!data->running) {
         mcp_log_debug("TCP client transport already stopped");
+        mcp_mutex_unlock(data->reconnect_mutex);
         return 0;
     }
 
     mcp_log_info("Stopping TCP client transport...");
 
-    // Stop reconnection process if active
-    stop_reconnection_process(transport);
-
-    // Signal receiver thread to stop
+    // Signal receiver and reconnection threads to stop
     data->running = false;
 
-    // Disable reconnection to prevent auto-reconnect during shutdown
-    data->reconnect_enabled = false;
-
-    // Shutdown the socket to unblock the receiver thread
+    // Shutdown the socket to unblock the receiver thread and senders
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Shutting down socket %d", (int)data->sock);
 
@@ -215,22 +237,30 @@ static int tcp_client_transport_stop(mcp_transport_t* transport) {
 #else
         shutdown(data->sock, SHUT_RDWR);
 #endif
-        // Don't close socket here, let receiver thread or destroy handle it
     }
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    // Stop reconnection process if active
+    stop_reconnection_process(transport);
 
     // Wait for receiver thread to finish
-    if (data->receive_thread) {
+    mcp_mutex_lock(data->reconnect_mutex);
+    mcp_thread_t receiver = data->receive_thread;
+    data->receive_thread = 0;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    if (receiver) {
         mcp_log_debug("Waiting for receiver thread to finish...");
-        mcp_thread_join(data->receive_thread, NULL);
-        data->receive_thread = 0;
+        mcp_thread_join(receiver, NULL);
         mcp_log_debug("Receiver thread stopped");
     }
 
+    // Close the socket
+    cleanup_connection(data);
+
     // Update connection state
+    mcp_mutex_lock(data->reconnect_mutex);
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
-
-    // Close socket if not already closed by receiver
-    cleanup_connection(data);
+    mcp_mutex_unlock(data->reconnect_mutex);
 
     // Clean up socket library
     mcp_socket_cleanup();
@@ -264,47 +294,39 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
     }
+    if (data->reconnect_cond) {
+        mcp_cond_destroy(data->reconnect_cond);
+        data->reconnect_cond = NULL;
+    }
+    if (data->send_mutex) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
 }
 
 /**
- * @brief Common helper function to handle send errors and trigger reconnection if needed.
+ * @brief Common helper function to handle send errors.
  *
- * This function logs the error, marks the connection as disconnected,
- * calls the error callback if set, and starts the reconnection process
- * if enabled.
+ * This function logs the error and calls the error callback if set.
  *
  * @param transport The transport handle
+ * @param error_code The socket error code
  * @param error_msg Error message to log
  * @return Always returns -1 to indicate error
  */
-static int handle_send_error(mcp_transport_t* transport, const char* error_msg) {
+static int handle_send_error(mcp_transport_t* transport, int error_code, const char* error_msg) {
     if (validate_transport(transport, "handle_send_error") != 0) {
         return -1;
     }
 
-    mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
-    int error_code = mcp_socket_get_lasterror();
-
     // Log the error with the socket error code
     mcp_log_error("%s (error code: %d)", error_msg, error_code);
 
-    // Mark as disconnected on send error
-    data->connected = false;
-
-    // Update connection state
-    mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
-
     // Call error callback if set
     if (transport->error_callback) {
         transport->error_callback(transport->callback_user_data, error_code);
     }
 
-    // If reconnection is enabled, start reconnection process
-    if (data->reconnect_enabled) {
-        mcp_log_info("Starting reconnection process after send failure");
-        start_reconnection_process(transport);
-    }
-
     return -1;
 }
 
@@ -348,29 +370,25 @@ static int check_transport_ready(mcp_transport_t* transport, const char* operati
         return -1;
     }
 
-    // Check if socket is valid
-    if (data->sock == MCP_INVALID_SOCKET) {
-        mcp_log_error("Invalid socket for %s operation", operation_name);
-
-        // If socket is invalid but we think we're connected, fix the state
-        if (data->connected) {
-            data->connected = false;
-            mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
-
-            // Start reconnection if enabled
-            if (data->reconnect_enabled && data->connection_state != MCP_CONNECTION_STATE_RECONNECTING) {
-                mcp_log_info("Starting reconnection process due to invalid socket");
-                start_reconnection_process(transport);
-            }
-        }
-
-        return -1;
-    }
-
     // All checks passed, transport is ready
     return 0;
 }
 
+/**
+ * @brief Gets the socket to send on. Called with send_mutex held.
+ *
+ * @param data Pointer to the TCP client transport data
+ * @param sock Receives the socket
+ * @return 0 on success, -1 if the connection was lost meanwhile
+ */
+static int current_socket(mcp_tcp_client_transport_data_t* data, socket_t* sock) {
+    mcp_mutex_lock(data->reconnect_mutex);
+    bool usable = data->running && data->connected && data->sock != MCP_INVALID_SOCKET;
+    *sock = usable ? data->sock : MCP_INVALID_SOCKET;
+    mcp_mutex_unlock(data->reconnect_mutex);
+    return usable ? 0 : -1;
+}
+
 /**
  * @brief Implementation for the standard send function.
  *
@@ -409,9 +427,19 @@ static int tcp_client_transport_send(mcp_transport_t* transport, const void* dat
     mcp_log_debug("Sending %zu bytes to %s:%u", size, data->host, data->port);
 
     // Use the unified exact send helper
-    int result = mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL);
+    socket_t sock = MCP_INVALID_SOCKET;
+    mcp_mutex_lock(data->send_mutex);
+    int result = current_socket(data, &sock);
+    if (result == 0) {
+        result = mcp_socket_send_exact(sock, (const char*)data_buf, size, NULL);
+    }
+    int error_code = mcp_socket_get_lasterror();
+    if (result != 0) {
+        tcp_client_connection_lost(transport, sock);
+    }
+    mcp_mutex_unlock(data->send_mutex);
     if (result != 0) {
-        return handle_send_error(transport, "Failed to send data");
+        return handle_send_error(transport, error_code, "Failed to send data");
     }
 
     return 0;
@@ -487,14 +515,24 @@ static int tcp_client_transport_sendv(mcp_transport_t* transport, const mcp_buff
                  total_bytes, buffer_count, data->host, data->port);
 
     // Use the unified vectored send function
-    int result = mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL);
+    socket_t sock = MCP_INVALID_SOCKET;
+    mcp_mutex_lock(data->send_mutex);
+    int result = current_socket(data, &sock);
+    if (result == 0) {
+        result = mcp_socket_send_vectors(sock, iov, (int)buffer_count, NULL);
+    }
+    int error_code = mcp_socket_get_lasterror();
+    if (result != 0) {
+        tcp_client_connection_lost(transport, sock);
+    }
+    mcp_mutex_unlock(data->send_mutex);
 
     // Free the iovec array
     free(iov);
 
     // Check for errors
     if (result != 0) {
-        return handle_send_error(transport, "Failed to send vectored data");
+        return handle_send_error(transport, error_code, "Failed to send vectored data");
     }
 
     return 0;
@@ -504,13 +542,12 @@ static int tcp_client_transport_sendv(mcp_transport_t* transport, const mcp_buff
  * @brief Handles errors during receive operations.
  *
  * @param transport The transport handle
+ * @param sock The socket used for receiving
  * @param last_error The error code
  * @param timeout_ms The timeout value for logging
  * @return -1 for general errors, -2 for timeouts
  */
-static int handle_receive_error(mcp_transport_t* transport, int last_error, uint32_t timeout_ms) {
-    mcp_tcp_client_transport_data_t* data = (mcp_tcp_client_transport_data_t*)transport->transport_data;
-
+static int handle_receive_error(mcp_transport_t* transport, socket_t sock, int last_error, uint32_t timeout_ms) {
     // Check if this is a timeout
     if (last_error == EAGAIN || last_error == EWOULDBLOCK || last_error == ETIMEDOUT) {
         mcp_log_debug("Receive operation timed out after %u ms", timeout_ms);
@@ -521,15 +558,8 @@ static int handle_receive_error(mcp_transport_t* transport, int last_error, uint
     if (last_error == ECONNRESET || last_error == ENOTCONN || last_error == EPIPE) {
         mcp_log_error("Connection lost during receive: %d", last_error);
 
-        // Connection lost, mark as disconnected
-        data->connected = false;
-        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
-
-        // If reconnection is enabled, start reconnection process
-        if (data->reconnect_enabled) {
-            mcp_log_info("Starting reconnection process after connection loss");
-            start_reconnection_process(transport);
-        }
+        // Connection lost, mark as disconnected and reconnect if enabled
+        tcp_client_connection_lost(transport, sock);
     } else {
         // Other errors
         mcp_log_error("Failed to receive message: error code %d", last_error);
@@ -576,8 +606,10 @@ static int tcp_client_transport_receive(mcp_transport_t* transport, char** data_
     mcp_log_debug("Attempting to receive message from %s:%u (timeout: %u ms)",
                  data->host, data->port, timeout_ms);
 
+    socket_t sock = data->sock;
+
     // Set socket timeout for receive operation
-    if (mcp_socket_set_timeout(data->sock, timeout_ms) != 0) {
+    if (mcp_socket_set_timeout(sock, timeout_ms) != 0) {
         mcp_log_error("Failed to set socket timeout for receive operation");
         return -1;
     }
@@ -587,7 +619,7 @@ static int tcp_client_transport_receive(mcp_transport_t* transport, char** data_
     char* message_buf = NULL;
 
     int frame_result = mcp_framing_recv_message(
-        data->sock,
+        sock,
         &message_buf,
         &message_length,
         MAX_MCP_MESSAGE_SIZE,
@@ -595,12 +627,12 @@ static int tcp_client_transport_receive(mcp_transport_t* transport, char** data_
     );
 
     // Restore socket timeout to blocking mode
-    mcp_socket_set_timeout(data->sock, 0);
+    mcp_socket_set_timeout(sock, 0);
 
     // Handle receive errors
     if (frame_result != 0) {
         int last_error = mcp_socket_get_lasterror();
-        return handle_receive_error(transport, last_error, timeout_ms);
+        return handle_receive_error(transport, sock, last_error, timeout_ms);
     }
 
     // Successfully received a message
@@ -715,10 +747,11 @@ static int init_tcp_client_data(
 
     // Initialize mutex for thread synchronization
     data->reconnect_mutex = mcp_mutex_create();
-    if (data->reconnect_mutex == NULL) {
+    data->reconnect_cond = mcp_cond_create();
+    data->send_mutex = mcp_mutex_create();
+    if (data->reconnect_mutex == NULL || data->reconnect_cond == NULL || data->send_mutex == NULL) {
         mcp_log_error("Failed to create reconnection mutex");
-        free(data->host);
-        data->host = NULL;
+        free_transport_resources(data);
         return -1;
     }
 
@@ -726,10 +759,7 @@ static int init_tcp_client_data(
     data->buffer_pool = mcp_buffer_pool_create(POOL_BUFFER_SIZE, POOL_NUM_BUFFERS);
     if (data->buffer_pool == NULL) {
         mcp_log_error("Failed to create buffer pool");
-        mcp_mutex_destroy(data->reconnect_mutex);
-        data->reconnect_mutex = NULL;
-        free(data->host);
-        data->host = NULL;
+        free_transport_resources(data);
         return -1;
     }
 
-- 
2.43.0


From 845513511e728709afbeeda246f72cae9ad83b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:27 +0000
Subject: [PATCH 18/63] fix: client calls end with their own response, an error
 or their time-out

Calls waited once and could miss or misread their response after a table
resize or a spurious wakeup, calls outlived a lost connection, and destroying
the client freed what waiting calls still used.
---
 src/client/internal/client_internal.h    |   7 ++
 src/client/mcp_client_api.c              |   7 +-
 src/client/mcp_client_batch.c            |  19 ++++
 src/client/mcp_client_core.c             | 117 +++++++++++++++++++----
 src/client/mcp_client_hash_table.c       |   2 +-
 src/client/mcp_client_request.c          |  75 +++++++--------
 src/json/mcp_json_rpc.c                  |   4 +-
 src/transport/mcp_tcp_client_receiver.c  |  26 ++---
 src/transport/mcp_tcp_client_transport.c |   8 +-
 9 files changed, 175 insertions(+), 90 deletions(-)

diff --git a/src/client/internal/client_internal.h b/src/client/internal/client_internal.h
index c3d0cc5..8d34cf8 100644
--- a/src/client/internal/client_internal.h
+++ b/src/client/internal/client_internal.h
@@ -53,8 +53,15 @@ struct mcp_client {
     pending_request_entry_t* pending_requests_table; // Hash table
     size_t pending_requests_capacity; // Current capacity (size) of the hash table
     size_t pending_requests_count;    // Number of active entries in the hash table
+    size_t active_calls;              // Number of calls using the client right now
+    bool destroying;                  // Set when the client is being destroyed
+    mcp_cond_t* idle_cond;            // Signaled when the last active call ends during destruction
 };
 
+bool mcp_client_begin_call(mcp_client_t* client);
+void mcp_client_end_call(mcp_client_t* client);
+void mcp_client_fail_pending_requests(mcp_client_t* client, const char* message);
+
 pending_request_entry_t* mcp_client_find_pending_request_entry(mcp_client_t* client, uint64_t id, bool find_empty_for_insert);
 int mcp_client_add_pending_request_entry(mcp_client_t* client, uint64_t id, pending_request_t* request);
 int mcp_client_remove_pending_request_entry(mcp_client_t* client, uint64_t id);
diff --git a/src/client/mcp_client_api.c b/src/client/mcp_client_api.c
index 25d547b..a2e9ed6 100644
--- a/src/client/mcp_client_api.c
+++ b/src/client/mcp_client_api.c
@@ -28,11 +28,8 @@
  * @return 0 on success, -1 on failure
  */
 static int ensure_thread_local_arena() {
-    // Use static variable to track initialization status for this thread
-    static int initialized = 0;
-
     // Fast path for already initialized case
-    if (initialized) {
+    if (mcp_thread_cache_is_initialized() && mcp_arena_get_current() != NULL) {
         return 0;
     }
 
@@ -74,8 +71,6 @@ static int ensure_thread_local_arena() {
         mcp_log_debug("Thread-local arena initialized with size %zu", api_arena_size);
     }
 
-    // Mark as initialized for this thread
-    initialized = 1;
     return 0;
 }
 
diff --git a/src/client/mcp_client_batch.c b/src/client/mcp_client_batch.c
index 364d275..a01bb07 100644
--- a/src/client/mcp_client_batch.c
+++ b/src/client/mcp_client_batch.c
@@ -136,6 +136,13 @@ int mcp_client_send_batch_request(
     // Initialize the response array
     memset(response_array, 0, request_count * sizeof(mcp_batch_response_t));
 
+    // Keep the client alive until the whole batch is done
+    if (!mcp_client_begin_call(client)) {
+        mcp_log_error("Client is being destroyed");
+        mcp_client_free_batch_responses(response_array, request_count);
+        return -1;
+    }
+
     // Track success/failure counts for logging
     size_t success_count = 0;
     size_t failure_count = 0;
@@ -207,6 +214,8 @@ int mcp_client_send_batch_request(
         }
     }
 
+    mcp_client_end_call(client);
+
     // Set output parameters
     *responses = response_array;
     *response_count = request_count;
@@ -365,6 +374,14 @@ int mcp_client_send_batch_request_optimized(
         return -1;
     }
 
+    // Keep the client alive until the whole batch is done
+    if (!mcp_client_begin_call(client)) {
+        mcp_log_error("Client is being destroyed");
+        free(contexts);
+        mcp_client_free_batch_responses(response_array, request_count);
+        return -1;
+    }
+
     // Initialize contexts
     for (size_t i = 0; i < request_count; i++) {
         contexts[i].request = &requests[i];
@@ -406,6 +423,8 @@ int mcp_client_send_batch_request_optimized(
         }
     }
 
+    mcp_client_end_call(client);
+
     // Free the context array
     free(contexts);
 
diff --git a/src/client/mcp_client_core.c b/src/client/mcp_client_core.c
index 3ce831b..5eb0af3 100644
--- a/src/client/mcp_client_core.c
+++ b/src/client/mcp_client_core.c
@@ -99,6 +99,15 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
         return NULL;
     }
 
+    client->idle_cond = mcp_cond_create();
+    if (client->idle_cond == NULL) {
+        mcp_log_error("Failed to create idle condition variable.");
+        mcp_mutex_destroy(client->pending_requests_mutex);
+        mcp_transport_destroy(transport);
+        mcp_thread_cache_free(client, sizeof(mcp_client_t));
+        return NULL;
+    }
+
     // Initialize hash table with power-of-2 size for efficient hashing
     client->pending_requests_capacity = INITIAL_PENDING_REQUESTS_CAPACITY;
     client->pending_requests_count = 0;
@@ -109,6 +118,7 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
 
     if (client->pending_requests_table == NULL) {
         mcp_log_error("Failed to allocate pending requests table");
+        mcp_cond_destroy(client->idle_cond);
         mcp_mutex_destroy(client->pending_requests_mutex);
         mcp_transport_destroy(transport);
         mcp_thread_cache_free(client, sizeof(mcp_client_t));
@@ -153,10 +163,24 @@ void mcp_client_destroy(mcp_client_t* client) {
 
     mcp_log_debug("Destroying MCP client");
 
+    // Let the calls in progress fail
+    mcp_mutex_lock(client->pending_requests_mutex);
+    client->destroying = true;
+    mcp_client_fail_pending_requests(client, "Client destroyed");
+    mcp_mutex_unlock(client->pending_requests_mutex);
+
     // Transport is stopped and destroyed here
     if (client->transport != NULL) {
         // Ensure transport is stopped before destroying
         mcp_transport_stop(client->transport);
+
+        // Wait for the calls in progress before taking their transport away
+        mcp_mutex_lock(client->pending_requests_mutex);
+        while (client->active_calls > 0) {
+            mcp_cond_wait(client->idle_cond, client->pending_requests_mutex);
+        }
+        mcp_mutex_unlock(client->pending_requests_mutex);
+
         mcp_transport_destroy(client->transport);
         client->transport = NULL;
     }
@@ -166,6 +190,8 @@ void mcp_client_destroy(mcp_client_t* client) {
         mcp_mutex_destroy(client->pending_requests_mutex);
         client->pending_requests_mutex = NULL;
     }
+    mcp_cond_destroy(client->idle_cond);
+    client->idle_cond = NULL;
 
     // Free any remaining pending requests (and their condition variables) in the hash table
     if (client->pending_requests_table != NULL) {
@@ -197,29 +223,52 @@ void mcp_client_destroy(mcp_client_t* client) {
 }
 
 /**
- * @brief Callback invoked by the transport layer when a fatal error occurs (e.g., disconnection).
- *
- * This optimized function efficiently iterates through all waiting requests, marks them as errored,
- * and signals their condition variables to wake up the waiting threads.
+ * @brief Register a call using the client, so that destroying the client waits for it.
  *
- * @param user_data Client instance passed as user data
- * @param transport_error_code Error code from the transport layer
+ * @param client The client instance
+ * @return true if the call may go on, false if the client is being destroyed
  */
-void mcp_client_transport_error_callback(void* user_data, int transport_error_code) {
-    mcp_client_t* client = (mcp_client_t*)user_data;
-    if (client == NULL)
-        return;
-
-    mcp_log_info("Transport error detected (code: %d). Notifying waiting requests.", transport_error_code);
+bool mcp_client_begin_call(mcp_client_t* client) {
+    mcp_mutex_lock(client->pending_requests_mutex);
+    bool ok = !client->destroying;
+    if (ok) {
+        client->active_calls++;
+    }
+    mcp_mutex_unlock(client->pending_requests_mutex);
+    return ok;
+}
 
-    // Lock the mutex to safely access the pending requests table
+/**
+ * @brief End a call registered with mcp_client_begin_call().
+ *
+ * The client must not be used by the call any more.
+ *
+ * @param client The client instance
+ */
+void mcp_client_end_call(mcp_client_t* client) {
     mcp_mutex_lock(client->pending_requests_mutex);
+    client->active_calls--;
+    if (client->active_calls == 0 && client->destroying) {
+        mcp_cond_signal(client->idle_cond);
+    }
+    mcp_mutex_unlock(client->pending_requests_mutex);
+}
 
+/**
+ * @brief Let all requests waiting for a response fail with a transport error.
+ *
+ * The pending requests mutex must be held by the caller.
+ *
+ * @param client The client instance
+ * @param message The error message given to the requests
+ */
+void mcp_client_fail_pending_requests(mcp_client_t* client, const char* message) {
     // Count of notified requests for logging
     size_t notified_count = 0;
 
-    // Pre-allocate error message for all waiting requests
-    const char* error_msg = "Transport connection error";
+    if (client->pending_requests_table == NULL) {
+        return;
+    }
 
     // Iterate through the hash table
     for (size_t i = 0; i < client->pending_requests_capacity; ++i) {
@@ -236,7 +285,7 @@ void mcp_client_transport_error_callback(void* user_data, int transport_error_co
         // Avoid overwriting existing error message if one was somehow set
         if (*(entry->request.error_message_ptr) == NULL) {
             // Allocate error message using our helper
-            *(entry->request.error_message_ptr) = mcp_strdup(error_msg);
+            *(entry->request.error_message_ptr) = mcp_strdup(message);
         }
 
         // Update status to ERROR
@@ -249,9 +298,6 @@ void mcp_client_transport_error_callback(void* user_data, int transport_error_co
         }
     }
 
-    // Unlock the mutex
-    mcp_mutex_unlock(client->pending_requests_mutex);
-
     // Log the number of requests that were notified
     if (notified_count > 0) {
         mcp_log_info("Notified %zu waiting requests about transport error", notified_count);
@@ -260,6 +306,31 @@ void mcp_client_transport_error_callback(void* user_data, int transport_error_co
     }
 }
 
+/**
+ * @brief Callback invoked by the transport layer when a fatal error occurs (e.g., disconnection).
+ *
+ * This optimized function efficiently iterates through all waiting requests, marks them as errored,
+ * and signals their condition variables to wake up the waiting threads.
+ *
+ * @param user_data Client instance passed as user data
+ * @param transport_error_code Error code from the transport layer
+ */
+void mcp_client_transport_error_callback(void* user_data, int transport_error_code) {
+    mcp_client_t* client = (mcp_client_t*)user_data;
+    if (client == NULL)
+        return;
+
+    mcp_log_info("Transport error detected (code: %d). Notifying waiting requests.", transport_error_code);
+
+    // Lock the mutex to safely access the pending requests table
+    mcp_mutex_lock(client->pending_requests_mutex);
+
+    mcp_client_fail_pending_requests(client, "Transport connection error");
+
+    // Unlock the mutex
+    mcp_mutex_unlock(client->pending_requests_mutex);
+}
+
 /**
  * @brief Callback invoked by the transport layer when a message is received.
  *
@@ -471,6 +542,11 @@ int mcp_client_send_raw_request(
     *error_code_out = MCP_ERROR_NONE;
     *error_message_out = NULL;
 
+    if (!mcp_client_begin_call(client)) {
+        mcp_log_error("Client is being destroyed");
+        return -1;
+    }
+
     // Create the full request JSON string using the provided components
     // Use the more efficient direct formatter when available
     char* request_json = mcp_json_format_request_direct(id, method, params_json);
@@ -482,6 +558,7 @@ int mcp_client_send_raw_request(
 
         if (request_json == NULL) {
             mcp_log_error("Failed to format request JSON for method '%s'", method);
+            mcp_client_end_call(client);
             return -1;
         }
     }
@@ -496,6 +573,8 @@ int mcp_client_send_raw_request(
         error_message_out
     );
 
+    mcp_client_end_call(client);
+
     // Free the formatted request JSON string
     free(request_json);
 
diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 9033d32..8ae080a 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -202,7 +202,7 @@ int mcp_client_add_pending_request_entry(
     }
 
     // Check for duplicate ID (should never happen with proper ID generation)
-    if (entry->id == id) {
+    if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
         mcp_log_error("Duplicate request ID found in hash table: %llu",
                      (unsigned long long)id);
         return -1;
diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..88dbf44 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -6,6 +6,7 @@
 #include <mcp_memory_pool.h>
 #include <mcp_thread_cache.h>
 #include <mcp_arena.h>
+#include <mcp_sys_utils.h>
 #include <mcp_cache_aligned.h>
 #include <stdlib.h>
 #include <string.h>
@@ -106,7 +107,8 @@ int mcp_client_send_and_wait(
         mcp_mutex_lock(client->pending_requests_mutex);
 
         // Add the request to the hash table
-        int add_status = mcp_client_add_pending_request_entry(client, pending_req.id, &pending_req);
+        int add_status = client->destroying ? -1 :
+            mcp_client_add_pending_request_entry(client, pending_req.id, &pending_req);
         if (add_status != 0) {
             mcp_mutex_unlock(client->pending_requests_mutex);
             mcp_cond_destroy(pending_req.cv);
@@ -137,6 +139,16 @@ int mcp_client_send_and_wait(
             mcp_mutex_unlock(client->pending_requests_mutex);
         }
 
+        // The request may have been failed or answered meanwhile
+        free(*result);
+        *result = NULL;
+        if (*error_code == MCP_ERROR_NONE) {
+            *error_code = MCP_ERROR_TRANSPORT_ERROR;
+        }
+        if (*error_message == NULL) {
+            *error_message = mcp_strdup("Failed to send request");
+        }
+
         return -1;
     }
 
@@ -256,60 +268,40 @@ int mcp_client_send_and_wait(
     // Find the pending request entry in the hash table
     req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
 
-    // Process the request if found and still waiting
-    if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+    // Wait until the request is answered, failed or timed out
+    const uint64_t wait_start = mcp_get_monotonic_ms();
+    while (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
         // Wait for the response with appropriate timeout handling
         if (client->config.request_timeout_ms > 0) {
-            // Use timed wait with the configured timeout
-            mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
+            const uint64_t elapsed = mcp_get_monotonic_ms() - wait_start;
+            if (elapsed >= client->config.request_timeout_ms) {
+                mcp_log_error("Request %llu timed out after %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+                break;
+            }
 
             wait_result = mcp_cond_timedwait(
                 req_entry_wrapper->request.cv,
                 client->pending_requests_mutex,
-                client->config.request_timeout_ms
+                (uint32_t)(client->config.request_timeout_ms - elapsed)
             );
         } else {
             // Wait indefinitely
-            mcp_log_debug("Waiting indefinitely for response to request %llu",
-                         (unsigned long long)request_id);
-
             wait_result = mcp_cond_wait(
                 req_entry_wrapper->request.cv,
                 client->pending_requests_mutex
             );
         }
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
+        // The table may have been resized while waiting
+        req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+
+        if (wait_result != 0 && wait_result != -2) {
             mcp_log_error("Wait failed for request %llu with code: %d",
                          (unsigned long long)request_id, wait_result);
+            break;
         }
-#endif
-    } else if (req_entry_wrapper) {
-        // Request found but not in waiting state
-        mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-                     (unsigned long long)request_id, req_entry_wrapper->request.status);
-    } else {
-        // Request not found
-        mcp_log_error("Request %llu not found in pending requests table",
-                     (unsigned long long)request_id);
     }
 
     // Determine the final outcome based on request status
@@ -373,7 +365,6 @@ int mcp_client_send_and_wait(
     // Set appropriate error information based on the final status
     if (final_status == -2) {
         // Timeout case
-        mcp_log_error("Request %llu timed out", (unsigned long long)request_id);
         *error_code = MCP_ERROR_TRANSPORT_ERROR;
         *error_message = mcp_strdup("Request timed out");
         return -1;
@@ -430,6 +421,11 @@ int mcp_client_send_request(
     *error_message = NULL;
     *error_code = MCP_ERROR_NONE;
 
+    if (!mcp_client_begin_call(client)) {
+        mcp_log_error("Client is being destroyed");
+        return -1;
+    }
+
     // Generate next request ID with atomic operation
     mcp_mutex_lock(client->pending_requests_mutex);
     uint64_t current_id = client->next_id++;
@@ -446,6 +442,7 @@ int mcp_client_send_request(
         request_json = mcp_json_format_request(current_id, method, params_to_use);
         if (request_json == NULL) {
             mcp_log_error("Failed to format request JSON for method '%s'", method);
+            mcp_client_end_call(client);
             return -1;
         }
     }
@@ -463,6 +460,8 @@ int mcp_client_send_request(
         error_message
     );
 
+    mcp_client_end_call(client);
+
     // Free the formatted request JSON string
     free(request_json);
 
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..b41c63e 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -186,8 +186,8 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
     size_t params_len = (params != NULL) ? strlen(params) : 0;
 
     // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
+    // 32 bytes for the fixed parts + 20 for the id + method length + 2 for quotes around method
+    size_t buffer_size = 32 + 20 + method_len + 2;
 
     // Add space for params if provided: ,"params":PARAMS
     // 11 bytes for ,"params": + params length
diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index 7e48425..5f0772a 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -149,10 +149,6 @@ void* tcp_client_receive_thread_func(void* arg) {
     char* message_buf = NULL;
     int frame_result = 0;
 
-    // Track if error callback was already called in this loop iteration
-    // to avoid calling it multiple times for the same error
-    bool error_signaled = false;
-
     // Log thread startup
     mcp_log_info("TCP client receive thread started for socket %d", (int)sock);
 
@@ -203,12 +199,6 @@ void* tcp_client_receive_thread_func(void* arg) {
             // Handle other select errors
             mcp_log_error("select() failed with error: %d", last_error);
 
-            // Call error callback if set
-            if (transport->error_callback && !error_signaled) {
-                transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
-                error_signaled = true;
-            }
-
             break;
         } else if (select_result == 0) {
             // Timeout - no data available
@@ -238,12 +228,6 @@ void* tcp_client_receive_thread_func(void* arg) {
                 // Log the error with details
                 mcp_log_error("Failed to receive message on socket %d (result: %d, error: %d)",
                              (int)sock, frame_result, last_error);
-
-                // Call error callback if set and not already called
-                if (transport->error_callback && !error_signaled) {
-                    transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
-                    error_signaled = true;
-                }
             } else {
                 // Thread was stopped externally during receive
                 mcp_log_debug("Receive thread for socket %d stopped during message reception",
@@ -306,8 +290,8 @@ void* tcp_client_receive_thread_func(void* arg) {
         free(message_buf);
         message_buf = NULL;
 
-        // Reset error_signaled flag for next iteration
-        error_signaled = false;
+        // The JSON parsed by the callback is not needed any more
+        mcp_arena_reset_current_thread();
     }
 
     // Loop has exited - thread is shutting down
@@ -316,6 +300,12 @@ void* tcp_client_receive_thread_func(void* arg) {
     // Mark as disconnected and reconnect if enabled
     tcp_client_connection_lost(transport, sock);
 
+    // Tell the user that nothing more will be received over this connection,
+    // whoever noticed its loss. A new connection is not made before this thread has ended.
+    if (data->running && transport->error_callback) {
+        transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
+    }
+
     // Final check if message buffer was properly released
     if (message_buf != NULL) {
         mcp_log_warn("Message buffer was not properly freed, cleaning up");
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index dccf9c1..5e3342a 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -307,7 +307,8 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
 /**
  * @brief Common helper function to handle send errors.
  *
- * This function logs the error and calls the error callback if set.
+ * This function logs the error. The receiver thread of the lost connection
+ * calls the error callback.
  *
  * @param transport The transport handle
  * @param error_code The socket error code
@@ -322,11 +323,6 @@ static int handle_send_error(mcp_transport_t* transport, int error_code, const c
     // Log the error with the socket error code
     mcp_log_error("%s (error code: %d)", error_msg, error_code);
 
-    // Call error callback if set
-    if (transport->error_callback) {
-        transport->error_callback(transport->callback_user_data, error_code);
-    }
-
     return -1;
 }
 
-- 
2.43.0


From a75775cfd0466f140c79097d27707cf5a87fd269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:47 +0000
Subject: [PATCH 19/63] fix: connection pool lends only open connections and
 keeps its capacity

Get calls time out by the monotonic clock and retry failed connects until
their time-out. Destroy waits for the calls in progress. The maintenance
thread no longer closes or counts connections that are lent out.
---
 .../internal/connection_pool_internal.h       |   4 +-
 src/connection_pool/mcp_connection_pool.c     | 100 ++++++++++++------
 .../mcp_connection_pool_dns_cache.c           |  82 ++++++++------
 .../mcp_connection_pool_health.c              |  28 ++---
 .../mcp_connection_pool_maintenance.c         |  51 ++-------
 .../mcp_connection_pool_socket.c              |  26 +++--
 .../mcp_connection_pool_sync.c                |   2 +-
 7 files changed, 158 insertions(+), 135 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 81e2605..1e4c3b5 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -85,9 +85,6 @@ struct mcp_connection_pool {
     mcp_cond_t* cond_var;               // Condition variable for waiting clients (using abstracted type)
     mcp_rwlock_t* rwlock;               // Read-write lock for better concurrency
 
-    // Object pool for connection structures
-    mcp_object_pool_t* conn_pool;       // Object pool for connection structures
-
     // Double-linked list of idle connections (head and tail for efficient operations)
     mcp_pooled_connection_t* idle_head; // Head of idle list
     mcp_pooled_connection_t* idle_tail; // Tail of idle list
@@ -116,6 +113,7 @@ struct mcp_connection_pool {
     time_t last_health_check_time;      // Timestamp of last health check
 
     bool shutting_down;                 // Flag indicating pool destruction is in progress
+    size_t getters;                     // Number of calls waiting for or opening a connection
 
     // Thread for managing idle timeouts/min connections and health checks
     mcp_thread_t maintenance_thread;     // Thread handle for maintenance thread
diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index fd2069c..bedeae7 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -7,6 +7,9 @@
 #include <stdbool.h>
 #include <time.h>
 
+// Pause between attempts to open a connection while the server cannot be reached
+#define CREATE_RETRY_MS 100
+
 mcp_connection_pool_t* mcp_connection_pool_create(
     const char* host,
     int port,
@@ -82,7 +85,7 @@ mcp_connection_pool_t* mcp_connection_pool_create(
             pool->host, pool->port, pool->min_connections, pool->max_connections);
 
     // Start maintenance thread if needed
-    if (pool->idle_timeout_ms > 0 || pool->min_connections > 0) {
+    if (pool->idle_timeout_ms > 0 || pool->min_connections > 0 || pool->health_check_interval_ms > 0) {
         if (start_maintenance_thread(pool) != 0) {
             mcp_log_error("Failed to start maintenance thread.");
             // This is not fatal, but log as error since maintenance functions won't work
@@ -101,16 +104,18 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
     socket_handle_t sock = INVALID_SOCKET_HANDLE;
     long long start_time_ms = 0; // For tracking overall timeout
     if (timeout_ms > 0) {
-        start_time_ms = mcp_get_time_ms();
+        start_time_ms = mcp_get_monotonic_ms();
     }
 
     pool_lock(pool);
+    pool->getters++;
 
     while (sock == INVALID_SOCKET_HANDLE) {
+        bool create_failed = false;
+
         if (pool->shutting_down) {
             mcp_log_warn("mcp_connection_pool_get: Pool is shutting down.");
-            pool_unlock(pool);
-            return INVALID_SOCKET_HANDLE;
+            break;
         }
 
         // 1. Try to get an idle connection
@@ -132,7 +137,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
             // Update counts
             pool->idle_count--;
             pool->active_count++;
-            pool->total_connection_gets++;
 
             // Get socket handle
             sock = pooled_conn->socket_fd;
@@ -151,8 +155,9 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                                  (int)sock, idle_time_sec);
                     mcp_socket_close(sock);
                     free(pooled_conn);
+                    sock = INVALID_SOCKET_HANDLE;
 
-                    // Update counts but keep total the same
+                    // Update counts
                     pool->active_count--;
                     pool->total_count--;
 
@@ -165,15 +170,9 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
 
             // Perform a quick health check if enabled
             if (pool->health_check_interval_ms > 0) {
-                // Temporarily unlock the pool while checking connection health
-                pool_unlock(pool);
-
                 // Check connection health
                 bool is_healthy = check_connection_health(sock, pool->health_check_timeout_ms);
 
-                // Re-lock the pool
-                pool_lock(pool);
-
                 // Update health check statistics
                 pool->health_checks_performed++;
 
@@ -182,6 +181,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     mcp_log_warn("Connection %d failed health check, closing.", (int)sock);
                     mcp_socket_close(sock);
                     free(pooled_conn);
+                    sock = INVALID_SOCKET_HANDLE;
 
                     // Update counts and statistics
                     pool->active_count--;
@@ -196,33 +196,51 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
 
             free(pooled_conn); // Free the list node structure
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
-            pool_unlock(pool);
-            return sock;
+            break;
         }
 
         // 2. If no idle connections, try to create a new one if allowed
         if (pool->total_count < pool->max_connections) {
             size_t current_total = pool->total_count; // Read before unlocking
             pool->total_count++; // Optimistically increment total count
+
+            // Opening the connection must not take longer than the caller waits
+            int connect_timeout_ms = pool->connect_timeout_ms;
+            if (timeout_ms > 0) {
+                long long left_ms = timeout_ms - (mcp_get_monotonic_ms() - start_time_ms);
+                if (left_ms < 1) {
+                    left_ms = 1;
+                }
+                if (left_ms < connect_timeout_ms) {
+                    connect_timeout_ms = (int)left_ms;
+                }
+            }
             pool_unlock(pool);   // Unlock while creating connection
 
             mcp_log_debug("Attempting to create new connection (%zu/%zu).", current_total + 1, pool->max_connections);
-            socket_handle_t new_sock = create_new_connection(pool->host, pool->port, pool->connect_timeout_ms);
+            socket_handle_t new_sock = create_new_connection(pool->host, pool->port, connect_timeout_ms);
 
             pool_lock(pool); // Re-lock before checking result and updating state
             if (new_sock != INVALID_SOCKET_HANDLE) {
+                if (pool->shutting_down) {
+                    mcp_socket_close(new_sock);
+                    pool->total_count--;
+                    break;
+                }
                 pool->active_count++;
+                pool->total_connections_created++;
                 sock = new_sock; // Success! Loop will terminate.
                 mcp_log_debug("Created new connection %d.", (int)sock);
             } else {
                 pool->total_count--; // Creation failed, decrement total count
+                pool->total_connection_errors++;
+                create_failed = true;
                 mcp_log_warn("Failed to create new connection.");
-                // If creation fails, we might need to wait if timeout allows
-                if (timeout_ms == 0) {
-                    pool_unlock(pool);
-                    return INVALID_SOCKET_HANDLE;
+                pool_signal(pool); // Another waiter may use the slot
+                // Fall through to wait below, if timeout allows
+                if (pool->shutting_down) {
+                    break;
                 }
-                // Fall through to wait below
             }
         }
 
@@ -230,37 +248,48 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         if (sock == INVALID_SOCKET_HANDLE) {
              if (timeout_ms == 0) {
                  mcp_log_warn("mcp_connection_pool_get: Pool full and timeout is 0.");
-                 pool_unlock(pool);
-                 return INVALID_SOCKET_HANDLE;
+                 break;
              }
 
              int wait_timeout = timeout_ms;
              if (timeout_ms > 0) {
-                 long long elapsed_ms = mcp_get_time_ms() - start_time_ms;
+                 long long elapsed_ms = mcp_get_monotonic_ms() - start_time_ms;
                  wait_timeout = timeout_ms - (int)elapsed_ms;
                  if (wait_timeout <= 0) {
                      mcp_log_warn("mcp_connection_pool_get: Timed out waiting for connection.");
-                     pool_unlock(pool);
-                     return INVALID_SOCKET_HANDLE; // Overall timeout expired
+                     pool->total_connection_timeouts++;
+                     break; // Overall timeout expired
                  }
              }
 
+             // Nobody tells when the server can be reached again: try again now and then
+             if (create_failed && (wait_timeout < 0 || wait_timeout > CREATE_RETRY_MS)) {
+                 wait_timeout = CREATE_RETRY_MS;
+             }
+
              mcp_log_debug("Waiting for connection (timeout: %d ms)...", wait_timeout);
              int wait_result = pool_wait(pool, wait_timeout);
-             if (wait_result == 1) {
-                 mcp_log_warn("mcp_connection_pool_get: Timed out waiting for condition.");
-                 pool_unlock(pool);
-                 return INVALID_SOCKET_HANDLE;
-             } else if (wait_result == -1) {
+             if (wait_result == -1) {
                  mcp_log_error("mcp_connection_pool_get: Error waiting for condition.");
-                 pool_unlock(pool);
-                 return INVALID_SOCKET_HANDLE;
+                 break;
              }
-             // If wait_result is 0, we were signaled or had a spurious wakeup, loop continues
+             // Signaled, spurious wakeup or timeout: the loop looks again and ends if time is up
              mcp_log_debug("Woke up from wait, retrying get.");
         }
     } // End while loop
 
+    if (sock != INVALID_SOCKET_HANDLE) {
+        pool->total_connection_gets++;
+    } else if (pool->idle_head || pool->total_count < pool->max_connections) {
+        // A wakeup meant for a waiter may have come to this call as it gave up
+        pool_signal(pool);
+    }
+
+    pool->getters--;
+    if (pool->shutting_down && pool->getters == 0) {
+        pool_broadcast(pool); // Destruction waits for this
+    }
+
     pool_unlock(pool);
     return sock;
 }
@@ -357,6 +386,11 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
     }
     pool->shutting_down = true;
     pool_broadcast(pool);
+
+    // Calls still waiting for or opening a connection use the pool until they return
+    while (pool->getters > 0) {
+        pool_wait(pool, -1);
+    }
     pool_unlock(pool);
 
     // 2. Stop and join maintenance thread if it exists
diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 0c0d224..e241c44 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -5,6 +5,20 @@
 #include <errno.h>
 #include <stdint.h>
 
+// Serialises the first initialization
+#ifdef _WIN32
+static SRWLOCK g_init_lock = SRWLOCK_INIT;
+#define INIT_LOCK() AcquireSRWLockExclusive(&g_init_lock)
+#define INIT_UNLOCK() ReleaseSRWLockExclusive(&g_init_lock)
+#else
+#include <pthread.h>
+static pthread_mutex_t g_init_lock = PTHREAD_MUTEX_INITIALIZER;
+#define INIT_LOCK() pthread_mutex_lock(&g_init_lock)
+#define INIT_UNLOCK() pthread_mutex_unlock(&g_init_lock)
+#endif
+
+static void dns_cache_init_locked(void);
+
 // Global DNS cache instance
 MCP_CACHE_ALIGNED dns_cache_t g_dns_cache = {0};
 
@@ -15,6 +29,12 @@ MCP_CACHE_ALIGNED dns_cache_t g_dns_cache = {0};
  * initializing all cache entries.
  */
 void dns_cache_init() {
+    INIT_LOCK();
+    dns_cache_init_locked();
+    INIT_UNLOCK();
+}
+
+static void dns_cache_init_locked(void) {
     // Check if already initialized
     if (g_dns_cache.initialized) {
         return;
@@ -166,11 +186,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
-    int empty_slot = -1;
-    int oldest_slot = 0;
-    int least_used_slot = 0;
-    time_t oldest_time = current_time;
-    uint32_t least_hits = UINT32_MAX;
 
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -178,25 +193,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
-        // Track empty slots and replacement candidates
-        if (g_dns_cache.entries[i].hostname[0] == '\0') {
-            if (empty_slot == -1) {
-                empty_slot = i;
-            }
-        } else if (g_dns_cache.entries[i].ref_count == 0) {
-            // Track oldest entry
-            if (g_dns_cache.entries[i].timestamp < oldest_time) {
-                oldest_time = g_dns_cache.entries[i].timestamp;
-                oldest_slot = i;
-            }
-
-            // Track least frequently used entry
-            if (g_dns_cache.entries[i].hit_count < least_hits) {
-                least_hits = g_dns_cache.entries[i].hit_count;
-                least_used_slot = i;
-            }
-        }
-
         // Check if this entry matches our hostname and port
         if (g_dns_cache.entries[i].hostname[0] != '\0' &&
             strcmp(g_dns_cache.entries[i].hostname, cache_key) == 0) {
@@ -266,15 +262,28 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Update statistics
         g_dns_cache.misses++;
 
-        // Choose a slot for the new entry - prefer empty, then least used, then oldest
-        int slot;
-        if (empty_slot != -1) {
-            slot = empty_slot;
-        } else if (least_used_slot != oldest_slot) {
-            // If we have a least used slot that's different from oldest, prefer it
-            slot = least_used_slot;
-        } else {
-            slot = oldest_slot;
+        // Choose a slot for the new entry - prefer empty, then least used. A slot
+        // whose addresses are in use must not be replaced.
+        int slot = -1;
+        uint32_t least_hits = UINT32_MAX;
+        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+            mcp_mutex_lock(g_dns_cache.entries[i].mutex);
+            bool empty = g_dns_cache.entries[i].hostname[0] == '\0';
+            if (g_dns_cache.entries[i].ref_count == 0 &&
+                (empty || g_dns_cache.entries[i].hit_count < least_hits)) {
+                slot = i;
+                least_hits = g_dns_cache.entries[i].hit_count;
+            }
+            mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
+            if (empty && slot == i) {
+                break;
+            }
+        }
+
+        if (slot == -1) {
+            // Every entry is in use: hand the addresses out without caching them
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            return new_addr_info;
         }
 
         mcp_mutex_lock(g_dns_cache.entries[slot].mutex);
@@ -327,11 +336,13 @@ void dns_cache_release(struct addrinfo* addr_info) {
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
     // Find the entry containing this addr_info
+    bool cached = false;
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
         if (g_dns_cache.entries[i].addr_info == addr_info) {
             // Found it, decrement reference count
+            cached = true;
             if (g_dns_cache.entries[i].ref_count > 0) {
                 g_dns_cache.entries[i].ref_count--;
                 mcp_log_debug("Released DNS cache entry for %s (ref_count=%d, hits=%u)",
@@ -348,4 +359,9 @@ void dns_cache_release(struct addrinfo* addr_info) {
     }
 
     mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+
+    // Addresses that did not fit into the cache belong to the caller alone
+    if (!cached) {
+        freeaddrinfo(addr_info);
+    }
 }
diff --git a/src/connection_pool/mcp_connection_pool_health.c b/src/connection_pool/mcp_connection_pool_health.c
index 32d96eb..abdb16d 100644
--- a/src/connection_pool/mcp_connection_pool_health.c
+++ b/src/connection_pool/mcp_connection_pool_health.c
@@ -23,9 +23,6 @@
 #include <errno.h>
 #endif
 
-// Default health check timeout if not specified
-#define DEFAULT_HEALTH_CHECK_TIMEOUT_MS 2000
-
 // Health score thresholds
 #define HEALTH_SCORE_HEALTHY 50       // Score above this is considered healthy
 #define HEALTH_SCORE_PERFECT 100      // Maximum health score
@@ -88,7 +85,10 @@ static bool check_socket_readable(socket_handle_t socket_fd, int timeout_ms, boo
     pfd.events = POLLIN;
     pfd.revents = 0;
 
-    int poll_result = poll(&pfd, 1, timeout_ms);
+    int poll_result;
+    do {
+        poll_result = poll(&pfd, 1, timeout_ms);
+    } while (poll_result == -1 && errno == EINTR);
 
     if (poll_result == -1) {
         mcp_log_warn("Health check: poll() failed: %s", strerror(errno));
@@ -130,10 +130,9 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
     // Start timing for performance measurement
     long long check_start_ms = mcp_get_time_ms();
 
-    // Use default timeout if not specified
-    if (timeout_ms <= 0) {
-        timeout_ms = DEFAULT_HEALTH_CHECK_TIMEOUT_MS;
-    }
+    // What tells a broken connection from a healthy one is already there: a
+    // healthy idle connection has nothing to read, waiting only delays the caller
+    (void)timeout_ms;
 
     // Save current socket flags to restore later
 #ifdef _WIN32
@@ -160,7 +159,7 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
     bool has_error = false;
     bool is_healthy = true;
 
-    if (!check_socket_readable(socket_fd, timeout_ms, &is_readable, &has_error)) {
+    if (!check_socket_readable(socket_fd, 0, &is_readable, &has_error)) {
         is_healthy = false;
     } else if (has_error) {
         mcp_log_warn("Health check: socket has error condition");
@@ -194,7 +193,7 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
             mcp_log_warn("Health check: connection closed by peer");
             is_healthy = false;
         } else if (recv_result == -1) {
-            if (errno != EWOULDBLOCK && errno != EAGAIN) {
+            if (errno != EWOULDBLOCK && errno != EAGAIN && errno != EINTR) {
                 // Socket error
                 mcp_log_warn("Health check: recv() failed: %s", strerror(errno));
                 is_healthy = false;
@@ -295,19 +294,14 @@ int perform_health_checks(mcp_connection_pool_t* pool) {
         return 0;
     }
 
-    // Temporarily unlock the pool while performing health checks
-    pool_unlock(pool);
-
-    // Perform health checks on all connections in the batch
+    // Perform health checks on all connections in the batch. The pool stays
+    // locked so that no connection is lent out while it is being checked.
     bool health_results[MAX_BATCH_SIZE]; // Now using the #define MAX_BATCH_SIZE
     for (int i = 0; i < check_count; i++) {
         health_results[i] = check_connection_health(to_check[i].socket_fd, pool->health_check_timeout_ms);
         checked_count++;
     }
 
-    // Re-lock the pool
-    pool_lock(pool);
-
     // Update health check statistics
     pool->health_checks_performed += checked_count;
 
diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 904cd9c..fa3ee5f 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -1,7 +1,6 @@
 #include "internal/connection_pool_internal.h"
 #include "mcp_socket_utils.h"
 #include "mcp_sys_utils.h"
-#include "mcp_object_pool.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -41,19 +40,11 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         mcp_log_warn("Failed to create new connection to %s:%d", pool->host, pool->port);
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool);
         return NULL;
     }
 
-    // Allocate connection structure from object pool if available
-    mcp_pooled_connection_t* new_conn = NULL;
-    if (pool->conn_pool) {
-        new_conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
-    }
-
-    // Fall back to malloc if object pool is not available or empty
-    if (!new_conn) {
-        new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
-    }
+    mcp_pooled_connection_t* new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
 
     if (!new_conn) {
         // Failed to allocate node, close the connection
@@ -66,12 +57,14 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
 
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool);
         return NULL;
     }
 
     // Initialize connection structure
     new_conn->socket_fd = new_sock;
     new_conn->last_used_time = time(NULL);
+    new_conn->use_count = 0;
     new_conn->prev = NULL;
     new_conn->next = NULL;
 
@@ -95,6 +88,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
             pool->idle_head = new_conn;
         }
         pool->idle_count++;
+        pool_signal(pool);
     }
 
     mcp_log_debug("Created new connection %d to %s:%d", (int)new_sock, pool->host, pool->port);
@@ -160,24 +154,17 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     // Close the connection
     socket_handle_t sock_fd = conn->socket_fd;
 
-    // Temporarily unlock while closing connection
-    pool_unlock(pool);
+    // The pool stays locked: callers go on iterating over the idle list
     mcp_socket_close(sock_fd);
-    pool_lock(pool);
 
     // Update statistics
     pool->total_count--;
     pool->total_connections_closed++;
 
-    // Return connection structure to object pool if available
-    if (pool->conn_pool) {
-        // Clear the structure before returning to pool
-        memset(conn, 0, sizeof(mcp_pooled_connection_t));
-        mcp_object_pool_release(pool->conn_pool, conn);
-    } else {
-        // Free the connection structure
-        free(conn);
-    }
+    free(conn);
+
+    // A waiting caller may open a connection instead
+    pool_signal(pool);
 
     mcp_log_debug("Closed and freed connection %d", (int)sock_fd);
 }
@@ -343,24 +330,6 @@ int prepopulate_pool(mcp_connection_pool_t* pool) {
     // Lock the pool before modifying it
     pool_lock(pool);
 
-    // Create object pool for connection structures if not already created
-    if (!pool->conn_pool && pool->max_connections > 0) {
-        // Create object pool with initial capacity equal to min_connections
-        // and max capacity equal to max_connections
-        pool->conn_pool = mcp_object_pool_create(
-            sizeof(mcp_pooled_connection_t),
-            pool->min_connections,
-            pool->max_connections
-        );
-
-        if (!pool->conn_pool) {
-            mcp_log_warn("Failed to create connection object pool, falling back to malloc/free");
-        } else {
-            mcp_log_info("Created connection object pool with initial capacity %zu, max capacity %zu",
-                        pool->min_connections, pool->max_connections);
-        }
-    }
-
     size_t success_count = 0;
     for (size_t i = 0; i < pool->min_connections && pool->total_count < pool->max_connections; i++) {
         // Create and add a new connection to the idle list
diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index d46e60a..1c4310b 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -86,17 +86,31 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
     FD_SET(sock, &write_fds);
     FD_SET(sock, &error_fds);
 
+    int result;
+#ifdef _WIN32
     struct timeval tv;
     tv.tv_sec = timeout_ms / 1000;
     tv.tv_usec = (timeout_ms % 1000) * 1000;
 
-    int result;
-#ifdef _WIN32
     // Windows select first parameter is ignored
     result = select(0, NULL, &write_fds, &error_fds, &tv);
 #else
-    // POSIX select needs max fd + 1
-    result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
+    // An interrupted wait goes on for the rest of the time
+    long long deadline_ms = mcp_get_monotonic_ms() + timeout_ms;
+    do {
+        long long left_ms = deadline_ms - mcp_get_monotonic_ms();
+        if (left_ms < 0) {
+            left_ms = 0;
+        }
+        struct timeval tv;
+        tv.tv_sec = left_ms / 1000;
+        tv.tv_usec = (left_ms % 1000) * 1000;
+        FD_SET(sock, &write_fds);
+        FD_SET(sock, &error_fds);
+
+        // POSIX select needs max fd + 1
+        result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
+    } while (result < 0 && errno == EINTR);
 #endif
 
     if (result == 0) {
@@ -163,9 +177,7 @@ socket_handle_t create_new_connection(const char* host, int port, int connect_ti
     // It's generally not safe to call WSAStartup/WSACleanup per connection.
 
     // Initialize DNS cache if not already initialized
-    if (!g_dns_cache.initialized) {
-        dns_cache_init();
-    }
+    dns_cache_init();
 
     // Set up hints for the type of socket we want
     memset(&hints, 0, sizeof hints);
diff --git a/src/connection_pool/mcp_connection_pool_sync.c b/src/connection_pool/mcp_connection_pool_sync.c
index a6e7e7a..2e4d10d 100644
--- a/src/connection_pool/mcp_connection_pool_sync.c
+++ b/src/connection_pool/mcp_connection_pool_sync.c
@@ -63,7 +63,7 @@ int pool_wait(mcp_connection_pool_t* pool, int timeout_ms) {
 
     if (result == 0) {
         return 0; // Signaled
-    } else if (result == ETIMEDOUT) {
+    } else if (result == ETIMEDOUT || result == -2) { // -2: time-out of mcp_cond_timedwait
         return 1; // Timeout
     } else {
         mcp_log_error("mcp_cond_wait/timedwait failed with code: %d", result);
-- 
2.43.0


From 9616923757c6f03d188cd2bc6af9c8c14d326502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 20/63] fix: batches, escaping and failed allocations in JSON
 responses

Every batch member is answered, control characters are escaped, a response
that could not be built completely is not sent, and items a handler returned
are not put into the content item pool.
---
 include/mcp_string_utils.h       |  1 +
 src/common/mcp_string_utils.c    | 37 ++++++++++++++++++++++++++------
 src/json/mcp_json_message.c      |  9 ++++----
 src/json/mcp_json_rpc.c          |  5 ++---
 src/server/mcp_server_handlers.c | 20 ++++++++---------
 5 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/include/mcp_string_utils.h b/include/mcp_string_utils.h
index 4e79b7c..4158a3d 100644
--- a/include/mcp_string_utils.h
+++ b/include/mcp_string_utils.h
@@ -41,6 +41,7 @@ typedef struct {
     char* buffer;   /**< Pointer to the character buffer. */
     size_t length;  /**< Current length of the string in the buffer (excluding null terminator). */
     size_t capacity;/**< Current allocated capacity of the buffer. */
+    bool failed;    /**< Set once an append failed; the string is then incomplete. */
 } dyn_buf_t;
 
 /**
diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..812b58b 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -68,7 +68,7 @@ char* mcp_strdup(const char* str) {
 // Ensures the buffer has enough capacity for 'additional_len' more characters + null terminator.
 // Returns 0 on success, -1 on allocation failure.
 int dyn_buf_ensure_capacity(dyn_buf_t* db, size_t additional_len) {
-    if (!db)
+    if (!db || db->failed)
         return -1;
     // +1 for null terminator
     size_t required_capacity = db->length + additional_len + 1;
@@ -98,6 +98,7 @@ int dyn_buf_init(dyn_buf_t* db, size_t initial_capacity) {
 
     // Initialize structure
     db->length = 0;
+    db->failed = false;
 
     // Ensure minimum capacity
     if (initial_capacity < DYN_BUF_MIN_CAPACITY)
@@ -126,8 +127,10 @@ int dyn_buf_append(dyn_buf_t* db, const char* str) {
     if (str_len == 0)
         return 0;
 
-    if (dyn_buf_ensure_capacity(db, str_len) != 0)
+    if (dyn_buf_ensure_capacity(db, str_len) != 0) {
+        db->failed = true;
         return -1;
+    }
 
     // Use memcpy for better performance than strcat
     memcpy(db->buffer + db->length, str, str_len);
@@ -140,8 +143,10 @@ MCP_INLINE int dyn_buf_append_char(dyn_buf_t* db, char c) {
     if (!db)
         return -1;
 
-    if (dyn_buf_ensure_capacity(db, 1) != 0)
+    if (dyn_buf_ensure_capacity(db, 1) != 0) {
+        db->failed = true;
         return -1;
+    }
 
     db->buffer[db->length++] = c;
     db->buffer[db->length] = '\0';
@@ -171,15 +176,17 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Normal character, or a control character written as a unicode escape
+                additional_len += (unsigned char)c < 0x20 ? 6 : 1;
                 break;
         }
     }
 
     // Ensure we have enough capacity
-    if (dyn_buf_ensure_capacity(db, additional_len) != 0)
+    if (dyn_buf_ensure_capacity(db, additional_len) != 0) {
+        db->failed = true;
         return -1;
+    }
 
     // Now we know we have enough space, append directly to buffer
     char* dest = db->buffer + db->length;
@@ -197,7 +204,17 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex[] = "0123456789abcdef";
+                    memcpy(dest, "\\u00", 4);
+                    dest[4] = hex[(unsigned char)c >> 4];
+                    dest[5] = hex[(unsigned char)c & 0x0F];
+                    dest += 6;
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
@@ -215,6 +232,12 @@ char* dyn_buf_finalize(dyn_buf_t* db) {
     if (!db || !db->buffer)
         return NULL;
 
+    // An append failed: the string would be incomplete
+    if (db->failed) {
+        dyn_buf_free(db);
+        return NULL;
+    }
+
     char* final_str = db->buffer;
 
     // Optionally shrink buffer to exact size if there's significant waste
diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..17e03e7 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -575,7 +575,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                *count = batch_size; // Members that cannot be parsed stay invalid
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -590,9 +590,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
@@ -612,7 +610,8 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
         result = MCP_ERROR_INVALID_REQUEST;
     }
 
-    // Arena cleanup is handled by the caller
+    // The messages hold copies; arena cleanup is handled by the caller
+    mcp_json_destroy(root_json);
     PROFILE_END("mcp_json_parse_batch");
     return result;
 }
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index b41c63e..2707d5a 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -147,8 +147,8 @@ char* mcp_json_format_response(uint64_t id, const char* result) {
     if (result != NULL) {
         result_json = mcp_json_parse(result);
         if (result_json == NULL) {
-            mcp_log_warn("Invalid JSON provided for response result, defaulting to null: %s", result);
-            result_json = mcp_json_null_create(); // Fallback to null
+            // A null result would be a wrong answer: let the caller report an error
+            mcp_log_warn("Cannot use response result: %s", result);
         }
     } else {
         // Create JSON null
@@ -156,7 +156,6 @@ char* mcp_json_format_response(uint64_t id, const char* result) {
     }
 
     if (result_json == NULL) {
-        // Failed to create JSON null
         mcp_json_destroy(response);
         return NULL;
     }
diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 9c30fec..0675542 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -118,14 +118,14 @@ static char* create_json_result(const char* profile_name, uint64_t request_id, i
     return create_success_response(request_id, result_str);
 }
 
-// Helper function to clean up content items
-static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count) {
+// Helper function to clean up content items (cached ones are pooled, a handler's are not)
+static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count, bool pooled) {
     if (!content_items) return;
 
     for (size_t i = 0; i < content_count; i++) {
         if (content_items[i]) {
-            if (server && server->content_item_pool) {
-                mcp_object_pool_release(server->content_item_pool, content_items[i]);
+            if (pooled) {
+                mcp_content_item_release_pooled(server->content_item_pool, content_items[i]);
             } else {
                 mcp_content_item_free(content_items[i]);
             }
@@ -446,7 +446,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
             // Try resource handler
             handler_status = handle_resource_handler(server, uri, &content_items, &content_count, &fetched_from_handler);
             if (handler_status != MCP_ERROR_NONE) {
-                cleanup_content_items(server, content_items, content_count);
+                cleanup_content_items(server, content_items, content_count, false);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Resource handler failed or resource not found");
             }
@@ -472,13 +472,13 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
     PROFILE_START("json_build");
     mcp_json_t* contents_json = mcp_json_array_create_with_capacity(content_count);
     if (!contents_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
         mcp_json_destroy(params_json);
         RETURN_ERROR(profile_name, MCP_ERROR_INTERNAL_ERROR, "Failed to create contents array");
     }
 
     bool json_build_error = build_content_json(contents_json, content_items, content_count, uri);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
 
     if (json_build_error) {
         mcp_json_destroy(contents_json);
@@ -708,7 +708,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     if (handler_status != MCP_ERROR_NONE) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         mcp_json_destroy(params_json);
         *error_code = handler_status;
         const char* msg = handler_error_message ? handler_error_message : "Tool handler failed or tool not found";
@@ -720,7 +720,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
 
     mcp_json_t* content_json = mcp_json_array_create();
     if (!content_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         free(handler_error_message);
         mcp_json_destroy(params_json);
         *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -730,7 +730,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     bool json_build_error = build_tool_content_json(content_json, content_items, content_count);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, false);
     free(handler_error_message);
 
     if (json_build_error) {
-- 
2.43.0


From 4229cf277bb9832842cb9db5791dfba93102a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 21/63] fix: lock the template cache and free template routes
 with their members

---
 src/common/mcp_template_optimized.c          | 47 +++++++++++++++++---
 src/server/internal/server_template_router.h |  2 +-
 src/server/mcp_server_template_router.c      |  4 +-
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 6b99d1d..6f0e4e0 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -5,6 +5,12 @@
 #include <stdlib.h>
 #include <stdio.h>
 
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
+
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
@@ -25,6 +31,16 @@ typedef struct {
 /**
  * @brief Global cache of parsed templates
  */
+#ifdef _WIN32
+static SRWLOCK g_template_cache_lock = SRWLOCK_INIT;
+#define TEMPLATE_CACHE_LOCK() AcquireSRWLockExclusive(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() ReleaseSRWLockExclusive(&g_template_cache_lock)
+#else
+static pthread_mutex_t g_template_cache_lock = PTHREAD_MUTEX_INITIALIZER;
+#define TEMPLATE_CACHE_LOCK() pthread_mutex_lock(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() pthread_mutex_unlock(&g_template_cache_lock)
+#endif
+
 #define MAX_CACHED_TEMPLATES 128
 static mcp_cached_template_t* g_template_cache[MAX_CACHED_TEMPLATES] = {NULL};
 static size_t g_template_cache_count = 0;
@@ -69,15 +85,19 @@ static void mcp_cached_template_free(mcp_cached_template_t* cached) {
 
     free(cached->template_uri);
 
-    for (size_t i = 0; i < cached->static_count; i++) {
+    for (size_t i = 0; cached->static_parts != NULL && i < cached->static_count; i++) {
         free(cached->static_parts[i]);
     }
     free(cached->static_parts);
     free(cached->static_part_lengths);
 
     for (size_t i = 0; i < cached->param_count; i++) {
-        free(cached->param_names[i]);
-        mcp_template_free_validation(&cached->validations[i]);
+        if (cached->param_names != NULL) {
+            free(cached->param_names[i]);
+        }
+        if (cached->validations != NULL) {
+            mcp_template_free_validation(&cached->validations[i]);
+        }
     }
     free(cached->param_names);
     free(cached->validations);
@@ -394,7 +414,7 @@ static int validate_param_value(const char* value, const mcp_template_param_vali
  * @param template The template pattern to match against
  * @return 1 if the URI matches the template pattern, 0 otherwise
  */
-int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
+static int template_matches_locked(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return 0;
     }
@@ -477,6 +497,13 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
     return (*u == '\0');
 }
 
+int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
+    TEMPLATE_CACHE_LOCK();
+    int result = template_matches_locked(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return result;
+}
+
 /**
  * @brief Optimized parameter extraction function
  *
@@ -488,7 +515,7 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
  * @param template The template pattern to match against
  * @return A newly created JSON object containing parameter values, or NULL on error
  */
-mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
+static mcp_json_t* template_extract_params_locked(const char* uri, const char* template_uri) {
     if (uri == NULL || template_uri == NULL) {
         return NULL;
     }
@@ -703,6 +730,13 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
     return params;
 }
 
+mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
+    TEMPLATE_CACHE_LOCK();
+    mcp_json_t* params = template_extract_params_locked(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return params;
+}
+
 /**
  * @brief Get statistics about the template cache
  *
@@ -736,7 +770,9 @@ void mcp_template_cache_get_stats(
  * to free all cached templates.
  */
 void mcp_template_cache_cleanup(void) {
+    TEMPLATE_CACHE_LOCK();
     if (!g_template_cache_initialized) {
+        TEMPLATE_CACHE_UNLOCK();
         return;
     }
 
@@ -753,4 +789,5 @@ void mcp_template_cache_cleanup(void) {
     g_cache_stats.misses = 0;
     g_cache_stats.evictions = 0;
     g_cache_stats.total_lookups = 0;
+    TEMPLATE_CACHE_UNLOCK();
 }
diff --git a/src/server/internal/server_template_router.h b/src/server/internal/server_template_router.h
index 946e516..df7de5a 100644
--- a/src/server/internal/server_template_router.h
+++ b/src/server/internal/server_template_router.h
@@ -41,6 +41,6 @@ mcp_error_code_t mcp_server_handle_template_resource(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data);
+void mcp_server_free_template_routes(void* value);
 
 #endif /* SERVER_TEMPLATE_ROUTER_H */
diff --git a/src/server/mcp_server_template_router.c b/src/server/mcp_server_template_router.c
index 6f18f5e..3710a5f 100644
--- a/src/server/mcp_server_template_router.c
+++ b/src/server/mcp_server_template_router.c
@@ -177,9 +177,7 @@ int mcp_server_register_template_handler_internal(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data) {
-    (void)key;
-    (void)user_data;
+void mcp_server_free_template_routes(void* value) {
     template_route_t* route = (template_route_t*)value;
     template_route_free(route);
 }
-- 
2.43.0


From 86fc430b18ae7d590f76babbad3c2aa4ac159049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 22/63] fix: server stop waits for the requests in progress and
 refuses new ones

---
 src/server/mcp_server.c      | 76 ++++++++++++-----------------------
 src/server/mcp_server_task.c | 77 +++++++++++++++++++-----------------
 2 files changed, 67 insertions(+), 86 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..a66278b 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -17,6 +17,7 @@
 #include "mcp_object_pool.h"
 #include "mcp_memory_pool.h"
 #include "mcp_thread_cache.h"
+#include "mcp_sys_utils.h"
 
 /**
  * @brief Default size for the content item object pool
@@ -122,9 +123,6 @@ static int add_to_hashtable(
 static void cleanup_server_resources(mcp_server_t* server) {
     if (!server) return;
 
-    // Clean up object pool
-    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
-
     // Clean up hash tables
     safe_destroy_hashtable(&server->tools_table);
     safe_destroy_hashtable(&server->template_routes_table);
@@ -139,11 +137,14 @@ static void cleanup_server_resources(mcp_server_t* server) {
     safe_destroy_resource((void**)&server->advanced_rate_limiter, (void(*)(void*))mcp_advanced_rate_limiter_destroy);
     safe_destroy_resource((void**)&server->rate_limiter, (void(*)(void*))mcp_rate_limiter_destroy);
 
+    // Clean up thread pool
+    safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
+
     // Clean up resource cache
     safe_destroy_resource((void**)&server->resource_cache, (void(*)(void*))mcp_cache_destroy);
 
-    // Clean up thread pool
-    safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
+    // Clean up object pool (the cached items return to it)
+    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
 
     // Clean up synchronization primitives
     safe_destroy_resource((void**)&server->shutdown_mutex, (void(*)(void*))mcp_mutex_destroy);
@@ -421,7 +422,7 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     }
 
     // Template Routes Table (Key: URI Template string, Value: template_route_t*)
-    server->template_routes_table = create_string_hashtable((mcp_value_free_func_t)mcp_server_free_template_routes);
+    server->template_routes_table = create_string_hashtable(mcp_server_free_template_routes);
     if (server->template_routes_table == NULL) {
         mcp_log_error("Failed to create template routes hash table");
         goto create_error_cleanup;
@@ -577,8 +578,10 @@ int mcp_server_stop(mcp_server_t* server) {
     }
 
     // Signal threads to stop
+    mcp_mutex_lock(server->shutdown_mutex);
     server->running = false;
     server->shutting_down = true;
+    mcp_mutex_unlock(server->shutdown_mutex);
 
     // Stop the transport if it exists
     if (server->transport != NULL) {
@@ -592,51 +595,24 @@ int mcp_server_stop(mcp_server_t* server) {
                      server->active_requests);
 
         // Wait for active requests to complete or timeout
-        if (server->active_requests > 0) {
-            uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
-                                server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
-
-            // Lock mutex and wait on condition variable
-            if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-                bool timed_out = false;
-
-                #ifdef _WIN32
-                // Calculate absolute timeout time for Windows
-                DWORD start_time = GetTickCount();
-                DWORD end_time = start_time + timeout_ms;
-
-                // Wait for active requests to complete or timeout
-                while (server->active_requests > 0 && !timed_out) {
-                    // Wait in small increments to check for timeout
-                    int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, 100);
-                    if (wait_result == -2) { // -2 indicates timeout of the wait call
-                        DWORD current_time = GetTickCount();
-                        if (current_time >= end_time) {
-                            timed_out = true;
-                        }
-                    }
-                }
-                #else
-                // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
-                }
-                #endif
-
-                mcp_mutex_unlock(server->shutdown_mutex);
+        uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
+                            server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
+        long long end_time = mcp_get_monotonic_ms() + (long long)timeout_ms;
+        long long remaining;
+
+        mcp_mutex_lock(server->shutdown_mutex);
+        while (server->active_requests > 0 && (remaining = end_time - mcp_get_monotonic_ms()) > 0) {
+            mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, (uint32_t)remaining);
+        }
+        int still_active = server->active_requests;
+        mcp_mutex_unlock(server->shutdown_mutex);
 
-                // Log the shutdown result
-                if (timed_out) {
-                    mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
-                                 timeout_ms, server->active_requests);
-                } else {
-                    mcp_log_info("All requests completed, proceeding with shutdown");
-                }
-            }
+        // Log the shutdown result
+        if (still_active > 0) {
+            mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
+                         timeout_ms, still_active);
         } else {
-            mcp_log_info("No active requests, proceeding with shutdown");
+            mcp_log_info("All requests completed, proceeding with shutdown");
         }
     }
 
@@ -711,7 +687,7 @@ int mcp_server_register_template_handler(mcp_server_t* server, const char* templ
     // Create the template routes table if it doesn't exist
     if (server->template_routes_table == NULL) {
         server->template_routes_table = create_string_hashtable(
-            (mcp_value_free_func_t)mcp_server_free_template_routes
+            mcp_server_free_template_routes
         );
 
         if (server->template_routes_table == NULL) {
diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..4f05adb 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,37 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @brief Counts a request as active
+ *
+ * @param server The server instance
+ * @return true if the request may be processed, false if the server is shutting down
+ */
+static bool request_begin(mcp_server_t* server) {
+    bool accepted = false;
+    mcp_mutex_lock(server->shutdown_mutex);
+    if (!server->shutting_down) {
+        server->active_requests++;
+        accepted = true;
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+    return accepted;
+}
+
+/**
+ * @brief Counts a request as completed and wakes a waiting mcp_server_stop
+ *
+ * @param server The server instance
+ */
+static void request_end(mcp_server_t* server) {
+    mcp_mutex_lock(server->shutdown_mutex);
+    server->active_requests--;
+    if (server->active_requests == 0 && server->shutting_down) {
+        mcp_cond_signal(server->shutdown_cond);
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,20 +179,13 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
-    // Check if server is shutting down
-    if (server->shutting_down) {
+    // Count the request, unless the server is shutting down
+    if (!request_begin(server)) {
         mcp_log_warn("Server is shutting down, rejecting new request");
         *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
         return NULL;
     }
 
-    // Increment active request counter
-#ifdef _WIN32
-    InterlockedIncrement((LONG*)&server->active_requests);
-#else
-    __sync_fetch_and_add(&server->active_requests, 1);
-#endif
-
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -180,12 +204,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 mcp_log_warn("Advanced rate limit exceeded for client IP: %s", client_ip ? client_ip : "unknown");
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
-                // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                // This request is not processed any further
+                request_end(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -197,12 +217,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 mcp_log_warn("Rate limit exceeded for client IP: %s", client_ip ? client_ip : "unknown");
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
-                // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                // This request is not processed any further
+                request_end(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -217,6 +233,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        request_end(server);
         return NULL;
     }
 
@@ -244,6 +261,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        request_end(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -283,21 +301,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
         mcp_log_error("Failed to process message (error code: %d), no response generated", handler_error_code);
     }
 
-    // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    // The server must not be used after this: it may be destroyed
+    request_end(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From 29e20dc6dae12919c7dea1c5779a569ccfd8d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 23/63] fix: each request of a batch is authenticated, routed
 requests are checked for access

---
 src/server/mcp_auth.c            |  15 +--
 src/server/mcp_server_dispatch.c | 170 +++++++++++++++++--------------
 2 files changed, 103 insertions(+), 82 deletions(-)

diff --git a/src/server/mcp_auth.c b/src/server/mcp_auth.c
index 895a4b8..c754b95 100644
--- a/src/server/mcp_auth.c
+++ b/src/server/mcp_auth.c
@@ -99,11 +99,11 @@ error:
  * @brief Creates a masked version of a sensitive string for logging
  *
  * @param sensitive The sensitive string to mask
- * @return A statically allocated string with most characters masked
- * @note The returned string is statically allocated and will be overwritten on subsequent calls
+ * @param masked Buffer for the masked string
+ * @return A string with most characters masked
  */
-static const char* create_masked_string(const char* sensitive) {
-    static char masked[64];
+static const char* create_masked_string(const char* sensitive, char masked[64]) {
+    const size_t masked_size = 64;
 
     if (!sensitive) {
         return "(null)";
@@ -120,8 +120,8 @@ static const char* create_masked_string(const char* sensitive) {
     size_t mask_len = len - prefix_len - suffix_len;
 
     // Ensure we don't overflow the buffer
-    if (prefix_len + mask_len + suffix_len + 1 > sizeof(masked)) {
-        mask_len = sizeof(masked) - prefix_len - suffix_len - 1;
+    if (prefix_len + mask_len + suffix_len + 1 > masked_size) {
+        mask_len = masked_size - prefix_len - suffix_len - 1;
     }
 
     // Copy prefix
@@ -297,7 +297,8 @@ int mcp_auth_verify(mcp_server_t* server, mcp_auth_type_t auth_type, const char*
         }
 
         // Log failure with masked credentials for security
-        const char* masked_creds = create_masked_string(credentials);
+        char masked[64];
+        const char* masked_creds = create_masked_string(credentials, masked);
         mcp_log_warn("API Key authentication failed: Key '%s' does not match configured key.", masked_creds);
         PROFILE_END("mcp_auth_verify");
         return -1;
diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..c2d7805 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -71,6 +71,51 @@ char* handle_ping_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_re
     return response;
 }
 
+/**
+ * @internal
+ * @brief Verifies the credentials a message carries.
+ *
+ * @param server The server instance.
+ * @param required_type The authentication the server is configured for.
+ * @param message The message whose credentials are to be checked.
+ * @return The caller's authentication context, or NULL if the credentials are missing or wrong.
+ */
+static mcp_auth_context_t* authenticate_message(mcp_server_t* server, mcp_auth_type_t required_type, const mcp_message_t* message) {
+    mcp_auth_context_t* auth_context = NULL;
+    mcp_json_t* params_json = NULL;
+    const char* credentials = NULL;
+
+    if (required_type == MCP_AUTH_API_KEY && message != NULL && message->type == MCP_MESSAGE_TYPE_REQUEST) {
+        params_json = mcp_json_parse(message->request.params);
+        if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
+            mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
+            if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
+                mcp_json_get_string(key_node, &credentials);
+            }
+        }
+    }
+
+    if (mcp_auth_verify(server, required_type, credentials, &auth_context) != 0) {
+        auth_context = NULL;
+    }
+    mcp_json_destroy(params_json);
+    return auth_context;
+}
+
+/**
+ * @internal
+ * @brief Checks whether the caller may use the tool or resource a routed request names.
+ */
+static bool gateway_access_allowed(const mcp_auth_context_t* auth_context, const char* method, mcp_json_t* params_json) {
+    bool is_tool = strcmp(method, "call_tool") == 0;
+    const char* item = NULL;
+    mcp_json_get_string(mcp_json_object_get_property(params_json, is_tool ? "name" : "uri"), &item);
+    if (item == NULL) {
+        return false;
+    }
+    return is_tool ? mcp_auth_check_tool_access(auth_context, item) : mcp_auth_check_resource_access(auth_context, item);
+}
+
 /**
  * @internal
  * @brief Parses and handles a single incoming message.
@@ -151,77 +196,15 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         return create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
     }
 
-    // --- Authentication (Simplified for Batch - Authenticate once based on first request?) ---
-    // TODO: Implement more granular auth per request in batch if needed.
-    mcp_auth_context_t* auth_context = NULL;
+    // --- Authentication ---
+    // The first request's credentials serve the whole message. Without them each
+    // request of a batch has to carry its own.
     mcp_auth_type_t required_auth_type = (server->config.api_key != NULL && strlen(server->config.api_key) > 0)
                                            ? MCP_AUTH_API_KEY
                                            : MCP_AUTH_NONE;
-    const char* credentials = NULL;
-    uint64_t first_request_id = 0; // For potential batch auth error response
-    bool is_ping_request = false;
-
-    if (message_count > 0 && messages[0].type == MCP_MESSAGE_TYPE_REQUEST) {
-        first_request_id = messages[0].request.id;
-
-        // Check if this is a ping request (special case for authentication)
-        if (messages[0].request.method != NULL && strcmp(messages[0].request.method, "ping") == 0) {
-            is_ping_request = true;
-            mcp_log_debug("Detected ping request, using relaxed authentication");
-        }
-
-        if (required_auth_type == MCP_AUTH_API_KEY) {
-            mcp_json_t* params_json = mcp_json_parse(messages[0].request.params);
-            if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
-                mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
-                if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
-                    mcp_json_get_string(key_node, &credentials);
-                }
-            }
-            // Arena handles params_json cleanup
-        }
-    }
-
-    // For ping requests, we'll create a special anonymous auth context if authentication fails
-    if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
-        if (is_ping_request) {
-            // For ping requests, create a special anonymous auth context
-            mcp_log_debug("Creating anonymous auth context for ping request");
-            auth_context = (mcp_auth_context_t*)calloc(1, sizeof(mcp_auth_context_t));
-            if (auth_context) {
-                auth_context->type = MCP_AUTH_NONE;
-                auth_context->identifier = mcp_strdup("ping_anonymous");
-
-                // Add minimal permissions for ping
-                auth_context->allowed_resources = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_resources) {
-                    auth_context->allowed_resources_count = 1;
-                    auth_context->allowed_resources[0] = mcp_strdup("*");
-                }
-
-                auth_context->allowed_tools = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_tools) {
-                    auth_context->allowed_tools_count = 1;
-                    auth_context->allowed_tools[0] = mcp_strdup("*");
-                }
-            }
-        } else {
-            // For non-ping requests, fail with authentication error
-            mcp_log_warn("Authentication failed for incoming message/batch.");
-            *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
-            // For batch, JSON-RPC spec is unclear on error response format.
-            // Sending a single error response might be appropriate.
-            char* error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
-            mcp_json_free_message_array(messages, message_count); // Free parsed messages
-            // No need to destroy the thread-local arena, just reset it
-            mcp_arena_reset_current_thread();
-#ifdef MCP_ENABLE_PROFILING
-            PROFILE_END("handle_message");
-#endif
-            return error_response;
-        }
-    }
-    mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
+    mcp_auth_context_t* auth_context = authenticate_message(server, required_auth_type,
+                                                            message_count > 0 ? &messages[0] : NULL);
+    mcp_log_debug("Authenticated identifier: %s", auth_context ? auth_context->identifier : "N/A");
     // --- End Authentication Check ---
 
     char* final_response_str = NULL;
@@ -274,7 +257,24 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
             }
 
             // Handle the request
-            single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            mcp_auth_context_t* own_context = NULL;
+            if (auth_context == NULL && i > 0) {
+                own_context = authenticate_message(server, required_auth_type, current_msg);
+            }
+            const mcp_auth_context_t* request_context = auth_context ? auth_context : own_context;
+            bool is_ping_request = current_msg->request.method != NULL &&
+                                   strcmp(current_msg->request.method, "ping") == 0;
+            if (request_context == NULL && !is_ping_request) {
+                mcp_log_warn("Authentication failed for incoming request.");
+                current_msg_error = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
+                if (!is_batch_response) {
+                    *error_code = current_msg_error;
+                }
+                single_response_str = create_error_response(current_msg->request.id, current_msg_error, "Authentication failed");
+            } else {
+                single_response_str = handle_request(server, arena, &current_msg->request, request_context, &current_msg_error);
+            }
+            mcp_auth_context_free(own_context);
             // Process the response
             if (single_response_str != NULL) {
                 if (is_batch_response && batch_buffer_initialized) {
@@ -312,7 +312,18 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         } else if (current_msg->type == MCP_MESSAGE_TYPE_RESPONSE) {
             // Server received a response - typically ignore.
         } else {
-            // Invalid message type - skip
+            // Invalid batch member - its ID is unknown
+            single_response_str = create_error_response(0, MCP_ERROR_INVALID_REQUEST, "Invalid request");
+            if (single_response_str != NULL && is_batch_response && batch_buffer_initialized) {
+                if (!first_response_in_batch) {
+                    dyn_buf_append(&response_batch_buf, ",");
+                }
+                dyn_buf_append(&response_batch_buf, single_response_str);
+                first_response_in_batch = false;
+                free(single_response_str);
+            } else {
+                final_response_str = single_response_str;
+            }
         }
 
         // Reset arena for the next message in the batch (if any)
@@ -400,9 +411,18 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     // --- Gateway Routing Check ---
     // Only attempt routing if gateway mode is enabled and backends are configured
     if (server->is_gateway_mode && server->backends != NULL && server->backend_count > 0) {
-        // Check if this request should be routed to a backend
-        const mcp_backend_info_t* target_backend = find_backend_for_request(request, server->backends, server->backend_count);
-
+        // Check if this request should be routed to a backend. Routing works on parsed parameters.
+        mcp_json_t* params_json = request->params ? mcp_json_parse((const char*)request->params) : NULL;
+        mcp_request_t routed_request = *request;
+        routed_request.params = params_json;
+        const mcp_backend_info_t* target_backend = find_backend_for_request(&routed_request, server->backends, server->backend_count);
+        bool access_allowed = target_backend == NULL || gateway_access_allowed(auth_context, request->method, params_json);
+        mcp_json_destroy(params_json);
+
+        if (!access_allowed) {
+            *error_code = MCP_ERROR_FORBIDDEN;
+            return create_error_response(request->id, *error_code, "Access denied");
+        }
         if (target_backend) {
             // Found a backend to route to. Call the forwarding function.
             // Pass the pool manager from the server struct.
@@ -455,10 +475,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From 0b9db932877fb9b90d51a9f0f7231d3a7b75860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:02 +0000
Subject: [PATCH 24/63] fix: gateway routing looks at the whole request and
 survives reloads

The route was cached by method name only and the cache kept backends of a
configuration that had been freed. Concurrent reloads could also install an
older file after a newer one.
---
 src/gateway/mcp_gateway_config.c         |   2 +-
 src/gateway/mcp_gateway_config_manager.c | 122 +++++++----------------
 2 files changed, 39 insertions(+), 85 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index b4ad812..4c63bed 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -398,7 +398,7 @@ mcp_error_code_t load_gateway_config(
 
 cleanup_error:
     // Free partially populated temp list
-    mcp_free_backend_list(temp_list, backend_count); // Frees structs up to backend_count
+    mcp_free_backend_list(temp_list, backend_capacity); // Unused structs are all zero
     // mcp_json_destroy(root_json); // Assuming arena cleanup
     return err;
 }
diff --git a/src/gateway/mcp_gateway_config_manager.c b/src/gateway/mcp_gateway_config_manager.c
index 42d418c..37429ef 100644
--- a/src/gateway/mcp_gateway_config_manager.c
+++ b/src/gateway/mcp_gateway_config_manager.c
@@ -8,18 +8,19 @@
 #include "mcp_gateway_routing.h"
 #include "mcp_log.h"
 #include "mcp_rwlock.h"
-#include "mcp_hashtable.h"
+#include "mcp_sync.h"
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
 /**
- * @brief Structure for method-to-backend cache entry
+ * @brief Backends of a replaced configuration, kept for callers still using them
  */
-typedef struct {
-    char* method;                      /**< Method name (key) */
-    const mcp_backend_info_t* backend; /**< Pointer to backend (not owned) */
-} method_backend_cache_entry_t;
+typedef struct retired_backends {
+    mcp_backend_info_t* backend_list;
+    size_t backend_count;
+    struct retired_backends* next;
+} retired_backends_t;
 
 /**
  * @brief Internal structure for the gateway configuration manager
@@ -29,25 +30,10 @@ struct gateway_config_manager {
     mcp_rwlock_t* config_lock;         /**< Read-write lock for thread-safe access */
     mcp_backend_info_t* backend_list;  /**< Array of backend configurations */
     size_t backend_count;              /**< Number of backends in the list */
-    mcp_hashtable_t* method_cache;     /**< Cache for method-to-backend mapping */
+    mcp_mutex_t* reload_lock;          /**< Lets one reload at a time read the file and install it */
+    retired_backends_t* retired;       /**< Replaced backend lists (freed on destroy) */
 };
 
-// We use the standard string hash and compare functions from mcp_hashtable.h
-
-/**
- * @brief Free function for cache entries
- *
- * This function matches the mcp_value_free_func_t signature
- */
-static void cache_entry_free(void* entry) {
-    if (entry) {
-        method_backend_cache_entry_t* cache_entry = (method_backend_cache_entry_t*)entry;
-        // Note: Don't free method string as it's owned by the hashtable key management
-        // Note: Don't free backend as it's owned by the config
-        free(cache_entry);
-    }
-}
-
 /**
  * @brief Creates a new gateway configuration manager
  */
@@ -68,18 +54,14 @@ gateway_config_manager_t* gateway_config_manager_create(const char* config_path)
     manager->config_lock = mcp_rwlock_create();
     manager->backend_list = NULL;
     manager->backend_count = 0;
-    manager->method_cache = mcp_hashtable_create(64, 0.75f,
-                                                 mcp_hashtable_string_hash,
-                                                 mcp_hashtable_string_compare,
-                                                 mcp_hashtable_string_dup,
-                                                 mcp_hashtable_string_free,
-                                                 cache_entry_free);
-
-    if (!manager->config_path || !manager->config_lock || !manager->method_cache) {
+    manager->reload_lock = mcp_mutex_create();
+    manager->retired = NULL;
+
+    if (!manager->config_path || !manager->config_lock || !manager->reload_lock) {
         mcp_log_error("Failed to initialize gateway config manager");
         if (manager->config_path) free(manager->config_path);
         mcp_rwlock_free(manager->config_lock);
-        if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
+        mcp_mutex_destroy(manager->reload_lock);
         free(manager);
         return NULL;
     }
@@ -113,6 +95,12 @@ void gateway_config_manager_destroy(gateway_config_manager_t* manager) {
         manager->backend_list = NULL;
         manager->backend_count = 0;
     }
+    while (manager->retired) {
+        retired_backends_t* next = manager->retired->next;
+        mcp_free_backend_list(manager->retired->backend_list, manager->retired->backend_count);
+        free(manager->retired);
+        manager->retired = next;
+    }
 
     // Release lock before destroying it
     mcp_rwlock_write_unlock(manager->config_lock);
@@ -120,7 +108,7 @@ void gateway_config_manager_destroy(gateway_config_manager_t* manager) {
     // Free resources
     if (manager->config_path) free(manager->config_path);
     mcp_rwlock_free(manager->config_lock);
-    if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
+    mcp_mutex_destroy(manager->reload_lock);
     free(manager);
 
     mcp_log_info("Gateway configuration manager destroyed");
@@ -163,9 +151,17 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
     size_t new_backend_count = 0;
     mcp_error_code_t err;
 
-    // Load new configuration
+    retired_backends_t* retired = (retired_backends_t*)malloc(sizeof(retired_backends_t));
+    if (!retired) {
+        return MCP_ERROR_INTERNAL_ERROR;
+    }
+
+    // Load new configuration (a later reload must not be overtaken by an earlier one)
+    mcp_mutex_lock(manager->reload_lock);
     err = load_gateway_config(manager->config_path, &new_backend_list, &new_backend_count);
     if (err != MCP_ERROR_NONE) {
+        mcp_mutex_unlock(manager->reload_lock);
+        free(retired);
         mcp_log_error("Failed to load gateway configuration: %d", err);
         return err;
     }
@@ -173,23 +169,19 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
     // Acquire write lock - ensures exclusive access during update
     mcp_rwlock_write_lock(manager->config_lock);
 
-    // Free old backend list
-    if (manager->backend_list) {
-        mcp_free_backend_list(manager->backend_list, manager->backend_count);
-    }
+    // Callers may still use the old backends: there is no telling when they are done
+    retired->backend_list = manager->backend_list;
+    retired->backend_count = manager->backend_count;
+    retired->next = manager->retired;
+    manager->retired = retired;
 
     // Update with new configuration
     manager->backend_list = new_backend_list;
     manager->backend_count = new_backend_count;
 
-    // Clear the method cache since backend list has changed
-    if (manager->method_cache) {
-        mcp_hashtable_clear(manager->method_cache);
-        mcp_log_debug("Method-to-backend cache cleared due to configuration reload");
-    }
-
     // Release write lock
     mcp_rwlock_write_unlock(manager->config_lock);
+    mcp_mutex_unlock(manager->reload_lock);
 
     mcp_log_info("Gateway configuration reloaded with %zu backends", new_backend_count);
     return MCP_ERROR_NONE;
@@ -197,8 +189,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
 
 /**
  * @brief Finds a backend for a given request
- *
- * Optimized implementation using method-to-backend cache for faster lookups
  */
 const mcp_backend_info_t* gateway_config_manager_find_backend(
     gateway_config_manager_t* manager,
@@ -209,25 +199,8 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
     }
 
     const mcp_backend_info_t* backend = NULL;
-    method_backend_cache_entry_t* cache_entry = NULL;
-
-    // First check the cache (without locking)
-    if (manager->method_cache) {
-        void* entry_ptr = NULL;
-        if (mcp_hashtable_get(manager->method_cache, request->method, &entry_ptr) == 0 && entry_ptr) {
-            cache_entry = (method_backend_cache_entry_t*)entry_ptr;
-            backend = cache_entry->backend;
-
-            // If we found a valid backend in the cache, return it immediately
-            if (backend) {
-                mcp_log_debug("Cache hit for method '%s' -> backend '%s'",
-                             request->method, backend->name);
-                return backend;
-            }
-        }
-    }
 
-    // Cache miss, acquire read lock
+    // Acquire read lock - the route depends on the request's parameters, so it is looked up every time
     mcp_rwlock_read_lock(manager->config_lock);
 
     // Find backend using the routing logic
@@ -237,27 +210,8 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
         manager->backend_count
     );
 
-    // Release read lock before updating cache
+    // Release read lock
     mcp_rwlock_read_unlock(manager->config_lock);
 
-    // Update the cache with the result (even if NULL, to cache negative results)
-    if (manager->method_cache && request->method) {
-        // Create a new cache entry
-        cache_entry = (method_backend_cache_entry_t*)malloc(sizeof(method_backend_cache_entry_t));
-        if (cache_entry) {
-            cache_entry->method = mcp_strdup(request->method);
-            cache_entry->backend = backend;
-
-            if (cache_entry->method) {
-                // Add to cache (will replace any existing entry)
-                mcp_hashtable_put(manager->method_cache, cache_entry->method, cache_entry);
-                mcp_log_debug("Added cache entry for method '%s'", request->method);
-            } else {
-                // Failed to duplicate method string
-                free(cache_entry);
-            }
-        }
-    }
-
     return backend;
 }
-- 
2.43.0


From 1bd015e04f5120ec387eee045299d43beadc525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:26 +0000
Subject: [PATCH 25/63] fix: report the real connection state of a TCP client

mcp_client_is_connected returned connected for any existing TCP transport.
---
 src/client/mcp_client_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/mcp_client_core.c b/src/client/mcp_client_core.c
index 5eb0af3..2f5e169 100644
--- a/src/client/mcp_client_core.c
+++ b/src/client/mcp_client_core.c
@@ -5,6 +5,7 @@
 #include <mcp_memory_pool.h>
 #include <mcp_thread_cache.h>
 #include <mcp_arena.h>
+#include <mcp_tcp_client_transport.h>
 #include <mcp_websocket_transport.h>
 #include <mcp_cache_aligned.h>
 #include <stdlib.h>
@@ -490,9 +491,8 @@ int mcp_client_is_connected(mcp_client_t* client) {
             return 1;
 
         case MCP_TRANSPORT_PROTOCOL_TCP:
-            // For TCP, we could check if the socket is valid and connected
-            // For now, assume connected if transport exists
-            return 1;
+            // The TCP transport keeps track of its connection
+            return mcp_tcp_client_get_connection_state(client->transport) == MCP_CONNECTION_STATE_CONNECTED ? 1 : 0;
 
         case MCP_TRANSPORT_PROTOCOL_STDIO:
             // STDIO is always "connected" if the transport exists
-- 
2.43.0


From 795d78eec2e5a65fe1d4fe39fe9b4394f4f570b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:26 +0000
Subject: [PATCH 26/63] fix: keep gateway backend connections exclusive,
 bounded and recoverable

- count a connection until it is really closed, so the limit holds
- do not use the idle list after the lock was released
- do not lend dead connections again
- give every forwarded request its own id on the backend connection and
  return the result under the caller's id
- pass the backend's own error on
---
 include/mcp_gateway_pool.h        | 11 +++++
 src/gateway/mcp_gateway_pool.c    | 72 ++++++++++++++++++-------------
 src/gateway/mcp_gateway_routing.c | 17 ++++++--
 3 files changed, 67 insertions(+), 33 deletions(-)

diff --git a/include/mcp_gateway_pool.h b/include/mcp_gateway_pool.h
index c29abac..15ab95f 100644
--- a/include/mcp_gateway_pool.h
+++ b/include/mcp_gateway_pool.h
@@ -63,6 +63,17 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
  */
 void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle);
 
+/**
+ * @brief Gets a request ID for use on a backend connection.
+ *
+ * IDs chosen by the gateway's own clients may repeat, and a late response must
+ * not be taken for the response to a later request. These IDs are never reused.
+ *
+ * @param manager The pool manager instance.
+ * @return A request ID no other request to a backend has.
+ */
+uint64_t gateway_pool_next_request_id(gateway_pool_manager_t* manager);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index b0d0ca0..0fcccdd 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -22,7 +22,7 @@
 // Structure to represent an idle connection node in the list
 typedef struct idle_connection_node {
     mcp_client_t* client;
-    time_t idle_since; // Timestamp when it became idle
+    long long idle_since; // Monotonic time (ms) when it became idle
     struct idle_connection_node* next;
 } idle_connection_node_t;
 
@@ -50,6 +50,7 @@ typedef struct {
 struct gateway_connection_pool_manager {
     mcp_hashtable_t* backend_pools; // Map: backend_address (char*) -> backend_pool_t*
     mcp_mutex_t* manager_lock;      // Mutex for thread-safe access to the hashtable
+    uint64_t last_request_id;       // Last request ID used on a backend connection
 };
 
 // Hash function for backend addresses (simple string hash)
@@ -97,6 +98,7 @@ gateway_pool_manager_t* gateway_pool_manager_create(void) {
         return NULL;
     }
 
+    manager->last_request_id = 0;
     manager->manager_lock = mcp_mutex_create();
     if (!manager->manager_lock) {
         mcp_log_error("Failed to create gateway manager mutex.");
@@ -145,6 +147,16 @@ void gateway_pool_manager_destroy(gateway_pool_manager_t* manager) {
     mcp_log_info("Gateway connection pool manager destroyed.");
 }
 
+// Implementation of gateway_pool_next_request_id
+uint64_t gateway_pool_next_request_id(gateway_pool_manager_t* manager) {
+    if (!manager) return 0;
+
+    mcp_mutex_lock(manager->manager_lock);
+    uint64_t id = ++manager->last_request_id;
+    mcp_mutex_unlock(manager->manager_lock);
+    return id;
+}
+
 // Helper to create a new backend pool structure
 static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_info) {
     backend_pool_t* pool = (backend_pool_t*)calloc(1, sizeof(backend_pool_t)); // Use calloc
@@ -248,7 +260,7 @@ static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_inf
                 }
 
                 node->client = client;
-                node->idle_since = time(NULL);
+                node->idle_since = mcp_get_monotonic_ms();
                 node->next = pool->idle_list;
                 pool->idle_list = node;
                 pool->idle_count++;
@@ -281,7 +293,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
     backend_pool_t* pool = NULL;
     mcp_client_t* client_connection = NULL;
     idle_connection_node_t* idle_node = NULL;
-    time_t now;
+    long long now;
     long long start_time_ms = 0;
     bool use_timeout = (timeout_ms >= 0); // Use timeout if >= 0 (-1 means wait indefinitely)
 
@@ -320,14 +332,14 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
 
     // --- Start Connection Retrieval Logic ---
     while (client_connection == NULL) {
-        now = time(NULL); // Get current time for timeout checks
+        now = mcp_get_monotonic_ms(); // Get current time for timeout checks
 
         // 1. Check idle list & handle idle timeouts
         idle_connection_node_t* prev_idle_node = NULL;
         idle_node = pool->idle_list;
         while (idle_node) {
             bool timed_out = (pool->idle_timeout_ms > 0) &&
-                             (difftime(now, idle_node->idle_since) * 1000.0 > pool->idle_timeout_ms);
+                             (now - idle_node->idle_since > pool->idle_timeout_ms);
 
             if (timed_out) {
                 mcp_log_info("Idle connection timed out for %s. Closing.", pool->backend_address);
@@ -337,14 +349,15 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                     pool->idle_list = idle_node->next;
                 }
                 pool->idle_count--;
-                pool->total_count--;
                 mcp_client_t* client_to_destroy = idle_node->client;
                 idle_connection_node_t* node_to_free = idle_node;
-                idle_node = idle_node->next;
                 mcp_mutex_unlock(pool->pool_lock); // Unlock before destroy
                 mcp_client_destroy(client_to_destroy);
                 free(node_to_free);
                 mcp_mutex_lock(pool->pool_lock); // Relock
+                pool->total_count--; // There is room for a new connection now
+                mcp_cond_signal(pool->pool_cond);
+                idle_node = pool->idle_list; // The list may have changed meanwhile
             } else {
                 if (prev_idle_node) {
                     prev_idle_node->next = idle_node->next;
@@ -408,7 +421,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create transport for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
+                mcp_cond_signal(pool->pool_cond);
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -419,7 +432,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create client for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
+                mcp_cond_signal(pool->pool_cond);
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -474,7 +487,7 @@ found_connection:
 }
 
 // Helper function to check if a connection is healthy
-static bool is_connection_healthy(mcp_client_t* client) {
+static bool is_connection_healthy(mcp_client_t* client, uint64_t request_id) {
     if (!client) return false;
 
     // Simple health check - try to ping the server
@@ -487,7 +500,7 @@ static bool is_connection_healthy(mcp_client_t* client) {
         client,
         "ping",  // Use the standard ping method
         "{}",    // Empty params
-        0,       // Use 0 as ID for health check
+        request_id,
         &response,
         &error_code,
         &error_message
@@ -501,6 +514,17 @@ static bool is_connection_healthy(mcp_client_t* client) {
     return (result == 0 && error_code == MCP_ERROR_NONE);
 }
 
+// Closes a connection that was lent out. Called with the pool locked, unlocks it.
+static void discard_connection(backend_pool_t* pool, mcp_client_t* client) {
+    mcp_mutex_unlock(pool->pool_lock);
+    mcp_client_destroy(client);
+    mcp_mutex_lock(pool->pool_lock);
+    if (pool->active_count > 0) pool->active_count--;
+    if (pool->total_count > 0) pool->total_count--; // Only now another one may be created
+    mcp_cond_signal(pool->pool_cond);
+    mcp_mutex_unlock(pool->pool_lock);
+}
+
 // Implementation of gateway_pool_release_connection
 void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle) {
     if (!manager || !backend_info || !backend_info->address || !connection_handle) {
@@ -529,13 +553,13 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
     // Check if we should perform health check
     // Only check if we already have some idle connections or if we're near capacity
     bool should_check_health = (pool->idle_count > 0 || pool->total_count >= pool->max_connections * 0.8);
-    bool is_healthy = true;
+    bool is_healthy = mcp_client_is_connected(client) == 1;
 
     // Perform health check if needed
-    if (should_check_health) {
+    if (is_healthy && should_check_health) {
         // Temporarily unlock pool to avoid blocking during health check
         mcp_mutex_unlock(pool->pool_lock);
-        is_healthy = is_connection_healthy(client);
+        is_healthy = is_connection_healthy(client, gateway_pool_next_request_id(manager));
         mcp_mutex_lock(pool->pool_lock);
     }
 
@@ -545,12 +569,9 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
         size_t max_idle = pool->max_connections / 2;
         if (pool->idle_count >= max_idle) {
             // Too many idle connections, destroy this one
-            if (pool->active_count > 0) pool->active_count--;
-            if (pool->total_count > 0) pool->total_count--;
-            mcp_mutex_unlock(pool->pool_lock);
-            mcp_client_destroy(client);
-            mcp_log_debug("Too many idle connections (%zu/%zu), destroyed connection for %s",
+            mcp_log_debug("Too many idle connections (%zu/%zu), destroying connection for %s",
                          pool->idle_count, max_idle, pool->backend_address);
+            discard_connection(pool, client);
             return;
         }
 
@@ -558,7 +579,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
         idle_connection_node_t* node = (idle_connection_node_t*)malloc(sizeof(idle_connection_node_t));
         if (node) {
             node->client = client;
-            node->idle_since = time(NULL);
+            node->idle_since = mcp_get_monotonic_ms();
             node->next = pool->idle_list;
             pool->idle_list = node;
             pool->idle_count++;
@@ -569,20 +590,13 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
             mcp_cond_signal(pool->pool_cond);
         } else {
             mcp_log_error("Failed to allocate node for idle connection for backend %s. Destroying connection.", pool->backend_address);
-            if (pool->active_count > 0) pool->active_count--;
-            // Decrement total_count as the connection is being destroyed
-            if (pool->total_count > 0) pool->total_count--;
-            mcp_mutex_unlock(pool->pool_lock);
-            mcp_client_destroy(client);
+            discard_connection(pool, client);
             return;
         }
     } else {
         // Connection is unhealthy, destroy it
         mcp_log_warn("Connection to %s is unhealthy, destroying it", pool->backend_address);
-        if (pool->active_count > 0) pool->active_count--;
-        if (pool->total_count > 0) pool->total_count--;
-        mcp_mutex_unlock(pool->pool_lock);
-        mcp_client_destroy(client);
+        discard_connection(pool, client);
         return;
     }
 
diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 29fe832..f3a3359 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -4,6 +4,7 @@
 #include "mcp_json.h"
 #include "mcp_log.h"
 #include "mcp_json_message.h"
+#include "mcp_json_rpc.h"
 #include <string.h>
 #include <stdlib.h>
 
@@ -151,7 +152,7 @@ char* gateway_forward_request(
         client_handle,
         request->method,
         params_str,
-        request->id,
+        gateway_pool_next_request_id(pool_manager),
         &backend_response_json,
         &backend_error_code,
         &backend_error_message
@@ -162,7 +163,7 @@ char* gateway_forward_request(
     client_handle = NULL; // Avoid using after release
 
     // Process the result based on status
-    if (send_status == 0) {
+    if (send_status == 0 || backend_error_code != MCP_ERROR_NONE) {
         if (backend_error_code != MCP_ERROR_NONE) {
             // Backend returned an error
             mcp_log_warn("Backend '%s' returned error for request ID %llu: %d (%s)",
@@ -187,9 +188,17 @@ char* gateway_forward_request(
             mcp_log_debug("Successfully received response from backend '%s' for request ID %llu.",
                           target_backend->name, (unsigned long long)request->id);
 
-            // Clean up and return success
+            // The backend's result answers the original request
+            char* response = mcp_json_format_response(request->id, backend_response_json);
+            if (!response) {
+                *error_code_out = MCP_ERROR_INTERNAL_ERROR;
+                response = mcp_json_create_error_response(request->id, *error_code_out, "Gateway failed to create response.");
+            }
+
+            // Clean up
+            free(backend_response_json);
             free(backend_error_message);
-            return backend_response_json;
+            return response;
         }
     } else {
         // Communication failed
-- 
2.43.0


From 7c8b0e86a9bd2fa7d9f442ca6bcdef7a7a6e93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:26 +0000
Subject: [PATCH 27/63] fix: no shared random seed for reconnect delays

Two clients reconnecting at the same time could each create the mutex that
protects the seed, and one of them unlocked a mutex it had not locked.
---
 src/transport/mcp_tcp_client_reconnect.c | 33 +++++-------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 346503a..75fb716 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -141,38 +141,17 @@ static uint32_t calculate_reconnect_delay(const mcp_reconnect_config_t* config,
 
     // Add jitter if enabled (full jitter algorithm)
     if (config->randomize_delay) {
-        // Use thread-safe random number generation with mutex
-        static mcp_mutex_t* rand_mutex = NULL;
-        static bool seeded = false;
-
-        // Initialize random seed if not already done
-        if (!seeded) {
-            if (!rand_mutex) {
-                rand_mutex = mcp_mutex_create();
-                if (!rand_mutex) {
-                    mcp_log_error("Failed to create random number mutex");
-                    return (uint32_t)base_delay; // Fall back to base delay
-                }
-            }
-
-            mcp_mutex_lock(rand_mutex);
-            
-            if (!seeded) {
-                // Use time and thread ID for seed
+        // Each call has its own seed, reconnect threads share nothing
 #ifdef _WIN32
-                unsigned int seed = (unsigned int)(GetTickCount() ^ GetCurrentThreadId());
+        srand((unsigned int)(GetTickCount() ^ GetCurrentThreadId()) + (unsigned int)attempt);
+        int value = rand();
 #else
-                unsigned int seed = (unsigned int)(time(NULL) ^ (uintptr_t)pthread_self());
+        unsigned int seed = (unsigned int)(time(NULL) ^ (uintptr_t)pthread_self()) + (unsigned int)attempt;
+        int value = rand_r(&seed);
 #endif
-                srand(seed);
-                seeded = true;
-            }
-            
-            mcp_mutex_unlock(rand_mutex);
-        }
 
         // Generate random value between 0 and 1
-        float random = (float)rand() / (float)RAND_MAX;
+        float random = (float)value / (float)RAND_MAX;
         
         // Apply jitter: random value between 0 and base_delay
         final_delay = random * base_delay;
-- 
2.43.0


From d0f26fd552c0487e450ea675bad25db9d1b057f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:22 +0000
Subject: [PATCH 28/63] fix: do not send a request without the params it was
 given

When the params could not be parsed, also for lack of memory, the request was
sent without them.
---
 src/json/mcp_json_rpc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 2707d5a..20d188f 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -121,12 +121,13 @@ char* mcp_json_format_request(uint64_t id, const char* method, const char* param
     if (params != NULL) {
         mcp_json_t* params_json = mcp_json_parse(params);
         if (params_json == NULL) {
-            mcp_log_warn("Invalid JSON provided for request params, omitting params field: %s", params);
-            // Don't add params if parsing failed
-        } else {
-            if (add_json_property(request, "params", params_json) != 0) {
-                return NULL;
-            }
+            // Without its params it would be another request
+            mcp_log_warn("Cannot use request params: %s", params);
+            mcp_json_destroy(request);
+            return NULL;
+        }
+        if (add_json_property(request, "params", params_json) != 0) {
+            return NULL;
         }
     }
 
-- 
2.43.0


From b110fecbca80cbe84d8238b9b950f88a766a1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:22 +0000
Subject: [PATCH 29/63] fix: HTTP client sends whole requests and reads
 responses however they are cut

- repeat short and interrupted sends and waits, no SIGPIPE
- no shared strtok state between concurrent requests
- do not take the body for headers
- measure time-outs by the monotonic clock
---
 src/transport/mcp_http_client_request.c | 98 ++++++++++++++++++++-----
 1 file changed, 79 insertions(+), 19 deletions(-)

diff --git a/src/transport/mcp_http_client_request.c b/src/transport/mcp_http_client_request.c
index ab4d53d..088f618 100644
--- a/src/transport/mcp_http_client_request.c
+++ b/src/transport/mcp_http_client_request.c
@@ -3,6 +3,7 @@
 #include "mcp_log.h"
 #include "mcp_string_utils.h"
 #include "mcp_socket_utils.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -18,6 +19,11 @@
 #include <netdb.h>
 #include <unistd.h>
 #include <arpa/inet.h>
+#include <errno.h>
+#endif
+
+#ifdef _WIN32
+#define strtok_r strtok_s
 #endif
 
 // Maximum buffer size for HTTP headers
@@ -286,6 +292,42 @@ static int build_http_request(char* buffer, size_t buffer_size, const char* path
     return request_len + end_len;
 }
 
+/**
+ * @brief Tells whether the last socket function was only interrupted by a signal
+ *
+ * @return true if it has to be repeated, false otherwise
+ */
+static bool was_interrupted(void) {
+#ifdef _WIN32
+    return false;
+#else
+    return errno == EINTR;
+#endif
+}
+
+/**
+ * @brief Send a whole buffer, however many pieces the socket takes it in
+ *
+ * @param sock Socket to send on
+ * @param data Data to send
+ * @param size Size of the data
+ * @return size_t Number of bytes sent, less than size on failure
+ */
+static size_t send_all(socket_t sock, const void* data, size_t size) {
+    size_t total = 0;
+    while (total < size) {
+        int sent = (int)send(sock, (const char*)data + total, (int)(size - total), MCP_SEND_FLAGS);
+        if (sent < 0 && was_interrupted()) {
+            continue;
+        }
+        if (sent <= 0) {
+            break;
+        }
+        total += (size_t)sent;
+    }
+    return total;
+}
+
 /**
  * @brief Wait for socket to be readable with timeout
  *
@@ -355,8 +397,12 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
         return false;
     }
 
+    // The body is not part of the headers
+    header_copy[*body_start_out - header_buffer] = '\0';
+
     // Parse status code
-    char* status_line = strtok(header_copy, "\r\n");
+    char* save_ptr = NULL;
+    char* status_line = strtok_r(header_copy, "\r\n", &save_ptr);
     if (status_line != NULL && strncmp(status_line, "HTTP/1.", 7) == 0) {
         *status_code_out = atoi(status_line + 9);
     } else {
@@ -366,7 +412,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
     }
 
     // Parse headers
-    char* header_line = strtok(NULL, "\r\n");
+    char* header_line = strtok_r(NULL, "\r\n", &save_ptr);
     while (header_line != NULL) {
         // Parse Content-Type
         if (strncasecmp(header_line, "Content-Type:", 13) == 0) {
@@ -375,6 +421,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
             while (*value == ' ') {
                 value++;
             }
+            free(*content_type_out);
             *content_type_out = mcp_strdup(value);
         }
         // Parse Content-Length
@@ -390,7 +437,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
             }
         }
 
-        header_line = strtok(NULL, "\r\n");
+        header_line = strtok_r(NULL, "\r\n", &save_ptr);
     }
 
     free(header_copy);
@@ -435,15 +482,13 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_monotonic_ms();
 
     mcp_log_info("Waiting for server response with timeout: %u ms", timeout_ms);
 
     while (!headers_done) {
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_monotonic_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
             mcp_log_error("Timeout waiting for HTTP response headers");
             return false;
@@ -456,12 +501,19 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
         int select_result = wait_for_socket(sock, remaining_ms);
 
         if (select_result <= 0) {
+            if (select_result < 0 && was_interrupted()) {
+                continue;
+            }
             // Error or timeout
             return false;
         }
 
-        // Socket is readable, receive data
-        bytes_read = recv(sock, buffer, sizeof(buffer) - 1, 0);
+        // Socket is readable, receive no more than the header buffer can hold
+        size_t room = sizeof(header_buffer) - 1 - (size_t)header_pos;
+        bytes_read = recv(sock, buffer, room < sizeof(buffer) - 1 ? room : sizeof(buffer) - 1, 0);
+        if (bytes_read < 0 && was_interrupted()) {
+            continue;
+        }
         if (bytes_read <= 0) {
             mcp_log_error("recv returned %d, error: %d", bytes_read, mcp_socket_get_lasterror());
             return false;
@@ -535,8 +587,7 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_monotonic_ms();
 
     mcp_log_debug("Reading body with Content-Length: %d (already read: %zu bytes)",
                  content_length, *response_size);
@@ -544,8 +595,7 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
     // Continue reading until we have the full content or timeout
     while (*response_size < (size_t)content_length) {
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_monotonic_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
             mcp_log_warn("Timeout reading HTTP response body, returning partial response (%zu/%d bytes)",
                         *response_size, content_length);
@@ -562,6 +612,9 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
         int select_result = wait_for_socket(sock, remaining_ms);
 
         if (select_result < 0) {
+            if (was_interrupted()) {
+                continue;
+            }
             // Error
             return false;
         } else if (select_result == 0) {
@@ -580,6 +633,9 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
         if (bytes_read <= 0) {
             // End of data or error
             if (bytes_read < 0) {
+                if (was_interrupted()) {
+                    continue;
+                }
                 mcp_log_error("recv failed during body read with error: %d", mcp_socket_get_lasterror());
                 return false;
             } else {
@@ -628,8 +684,7 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_monotonic_ms();
 
     mcp_log_debug("Reading body with %s encoding",
                  chunked ? "chunked" : "unknown length");
@@ -638,8 +693,7 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
     // A proper implementation would parse chunked encoding
     while (1) {
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_monotonic_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
             mcp_log_warn("Timeout reading HTTP response body, returning partial response");
             return true;  // Return true with partial data
@@ -655,6 +709,9 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
         int select_result = wait_for_socket(sock, remaining_ms);
 
         if (select_result < 0) {
+            if (was_interrupted()) {
+                continue;
+            }
             // Error
             return false;
         } else if (select_result == 0) {
@@ -667,6 +724,9 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
         if (bytes_read <= 0) {
             // End of data or error
             if (bytes_read < 0) {
+                if (was_interrupted()) {
+                    continue;
+                }
                 mcp_log_error("recv failed during body read with error: %d", mcp_socket_get_lasterror());
                 return false;
             } else {
@@ -760,7 +820,7 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Send request headers
-    int sent_len = send(sock, request, request_len, 0);
+    int sent_len = (int)send_all(sock, request, (size_t)request_len);
     if (sent_len != request_len) {
         mcp_log_error("Failed to send HTTP request headers: actual: %d, expected: %d",
                      sent_len, request_len);
@@ -771,7 +831,7 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Send request body
-    sent_len = send(sock, data, (int)size, 0);
+    sent_len = (int)send_all(sock, data, size);
     if (sent_len != (int)size) {
         mcp_log_error("Failed to send HTTP request body: actual: %d, expected: %d",
                      sent_len, (int)size);
-- 
2.43.0


From 9ff708ce62640a3b5a9382a5ee93daebb81e119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:22 +0000
Subject: [PATCH 30/63] fix: HTTP client event stream and concurrent responses

- read server-sent events line by line whatever the reads return; empty lines
  were skipped, so events were never delivered
- resume after the last delivered event
- keep the response of each calling thread apart
- braces inside strings no longer cut a response
- stopping does not close the socket under the event thread
---
 src/transport/internal/http_client_internal.h |  10 +-
 src/transport/mcp_http_client_sse.c           | 115 +++++++++++-----
 src/transport/mcp_http_client_transport.c     | 125 ++++++++++--------
 3 files changed, 162 insertions(+), 88 deletions(-)

diff --git a/src/transport/internal/http_client_internal.h b/src/transport/internal/http_client_internal.h
index 7300918..6a06af6 100644
--- a/src/transport/internal/http_client_internal.h
+++ b/src/transport/internal/http_client_internal.h
@@ -12,6 +12,13 @@
 extern "C" {
 #endif
 
+// A response waiting to be received by the thread that sent the request
+typedef struct http_client_pending_response {
+    unsigned long thread_id;
+    char* text;
+    struct http_client_pending_response* next;
+} http_client_pending_response_t;
+
 // Internal data structure for HTTP client transport
 typedef struct http_client_transport_data {
     char* host;                  // Host to connect to
@@ -37,8 +44,7 @@ typedef struct http_client_transport_data {
     mcp_transport_error_callback_t error_callback;
 
     // Response handling
-    char* last_response;         // Last HTTP response received
-    uint64_t last_request_id;    // ID of the last request sent
+    http_client_pending_response_t* responses; // Responses not yet received, one per thread
 } http_client_transport_data_t;
 
 #ifdef __cplusplus
diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index 78e313e..b8c783f 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -54,6 +54,7 @@
  * @brief Buffer size constants for SSE client
  */
 #define SSE_BUFFER_SIZE        4096  /**< Maximum buffer size for SSE events */
+#define SSE_MAX_LINE_SIZE      (4 * 1024 * 1024)  /**< Maximum length of a line in an SSE stream */
 #define SSE_URL_MAX_LENGTH     256   /**< Maximum URL length for SSE endpoint */
 #define SSE_REQUEST_MAX_LENGTH 1024  /**< Maximum HTTP request length */
 
@@ -157,7 +158,17 @@ static socket_t create_and_connect_socket(const char* host, uint16_t port, uint3
             return MCP_INVALID_SOCKET;
         }
 
-        // Set socket back to blocking mode
+    }
+    else if (connect_result == MCP_SOCKET_ERROR) {
+        // Connection failed immediately
+        mcp_log_error("Failed to connect to server: %s:%d (error: %d)",
+                     host, port, mcp_socket_get_lasterror());
+        mcp_socket_close(sock);
+        return MCP_INVALID_SOCKET;
+    }
+
+    // Set socket back to blocking mode
+    if (timeout_ms > 0) {
 #ifdef _WIN32
         u_long mode = 0;
         if (ioctlsocket(sock, FIONBIO, &mode) != 0) {
@@ -174,13 +185,6 @@ static socket_t create_and_connect_socket(const char* host, uint16_t port, uint3
         }
 #endif
     }
-    else if (connect_result == MCP_SOCKET_ERROR) {
-        // Connection failed immediately
-        mcp_log_error("Failed to connect to server: %s:%d (error: %d)",
-                     host, port, mcp_socket_get_lasterror());
-        mcp_socket_close(sock);
-        return MCP_INVALID_SOCKET;
-    }
 
     mcp_log_debug("Successfully connected to %s:%d", host, port);
     return sock;
@@ -246,7 +250,8 @@ static int build_and_send_sse_request(http_client_transport_data_t* data, socket
     }
 
     // Add Last-Event-ID header if available (for reconnection)
-    if (data->last_event_id != NULL) {
+    // Only this thread ever changes it
+    if (data->last_event_id != NULL && data->last_event_id[0] != '\0') {
         int id_len = snprintf(request + request_len, sizeof(request) - request_len,
                              "Last-Event-ID: %s\r\n", data->last_event_id);
 
@@ -287,7 +292,7 @@ static int build_and_send_sse_request(http_client_transport_data_t* data, socket
     if (data->use_ssl) {
         sent_len = http_client_ssl_write(data->ssl_ctx, request, request_len);
     } else {
-        sent_len = send(sock, request, request_len, 0);
+        sent_len = mcp_socket_send_exact(sock, request, (size_t)request_len, NULL) == 0 ? request_len : -1;
     }
 
     if (sent_len != request_len) {
@@ -399,7 +404,7 @@ void process_sse_event(http_client_transport_data_t* data, const sse_event_t* ev
         data->last_event_id = new_event_id;
         mcp_mutex_unlock(data->mutex);
 
-        mcp_log_debug("Updated last event ID: %s", data->last_event_id);
+        mcp_log_debug("Updated last event ID: %s", event->id);
     }
 
     // Process event data if provided
@@ -451,17 +456,13 @@ void process_sse_event(http_client_transport_data_t* data, const sse_event_t* ev
 }
 
 /**
- * @brief Helper function to trim leading spaces from a string.
+ * @brief Helper function to skip the one space that may follow a field's colon.
  *
- * @param str The string to trim
- * @return char* Pointer to the first non-space character
+ * @param str The text after the colon
+ * @return char* Pointer to the field's value
  */
-static char* trim_leading_spaces(char* str) {
-    if (str == NULL) {
-        return NULL;
-    }
-
-    while (*str == ' ') {
+static char* skip_leading_space(char* str) {
+    if (str != NULL && *str == ' ') {
         str++;
     }
 
@@ -518,22 +519,22 @@ static bool process_sse_line(const char* line, char** event_type, char** event_i
 
     // Empty line indicates end of event
     if (strlen(line) == 0) {
-        return *event_data != NULL;
+        return *event_data != NULL || *event_id != NULL || *event_type != NULL;
     }
 
     // Event type
     if (strncmp(line, "event:", 6) == 0) {
         safe_free_string(event_type);
-        *event_type = mcp_strdup(trim_leading_spaces((char*)line + 6));
+        *event_type = mcp_strdup(skip_leading_space((char*)line + 6));
     }
     // Event ID
     else if (strncmp(line, "id:", 3) == 0) {
         safe_free_string(event_id);
-        *event_id = mcp_strdup(trim_leading_spaces((char*)line + 3));
+        *event_id = mcp_strdup(skip_leading_space((char*)line + 3));
     }
     // Event data
     else if (strncmp(line, "data:", 5) == 0) {
-        char* data_line = trim_leading_spaces((char*)line + 5);
+        char* data_line = skip_leading_space((char*)line + 5);
         *event_data = append_to_event_data(*event_data, data_line);
     }
 
@@ -578,6 +579,19 @@ static void wait_with_running_check(http_client_transport_data_t* data, int wait
     }
 }
 
+/**
+ * @brief Tells whether the last socket function was only interrupted by a signal.
+ *
+ * @return bool true if it has to be repeated, false otherwise
+ */
+static bool sse_interrupted(void) {
+#ifdef _WIN32
+    return false;
+#else
+    return errno == EINTR;
+#endif
+}
+
 /**
  * @brief Event thread function for HTTP client transport.
  *
@@ -637,6 +651,12 @@ void* http_client_event_thread_func(void* arg) {
         char* event_data = NULL;
         int bytes_read = 0;
 
+        // The line being received, it may arrive in several pieces
+        char* line = NULL;
+        size_t line_len = 0;
+        size_t line_size = 0;
+        bool after_cr = false;
+
         // Initialize heartbeat tracking
         time_t last_activity_time = time(NULL);
         int timeout_counter = 0;  // Counter for timeout events to reduce logging
@@ -681,6 +701,9 @@ void* http_client_event_thread_func(void* arg) {
 
             // If select failed, break the loop
             if (select_result < 0) {
+                if (sse_interrupted()) {
+                    continue;
+                }
                 mcp_log_error("Select failed while waiting for SSE data: %d", mcp_socket_get_lasterror());
                 break;
             }
@@ -693,6 +716,9 @@ void* http_client_event_thread_func(void* arg) {
             }
 
             // Check for connection errors or closure
+            if (bytes_read < 0 && !data->use_ssl && sse_interrupted()) {
+                continue;
+            }
             if (bytes_read <= 0) {
                 break; // Exit the reading loop
             }
@@ -701,14 +727,36 @@ void* http_client_event_thread_func(void* arg) {
             last_activity_time = time(NULL);
             timeout_counter = 0;  // Reset counter when data is received
 
-            // Null-terminate the received data for string operations
-            buffer[bytes_read] = '\0';
-
             mcp_log_debug("Received %d bytes from SSE endpoint", bytes_read);
 
-            // Parse SSE events line by line
-            char* line = strtok(buffer, "\r\n");
-            while (line != NULL && data->running) {
+            // Parse SSE events line by line, a line ends with CR LF, LF or CR
+            bool failed = false;
+            for (int i = 0; i < bytes_read && data->running && !failed; i++) {
+                char c = buffer[i];
+                if (c == '\n' && after_cr) {
+                    after_cr = false;
+                    continue;
+                }
+                after_cr = (c == '\r');
+
+                if (line_len + 1 >= line_size) {
+                    size_t new_size = line_size ? line_size * 2 : 256;
+                    char* new_line = new_size <= SSE_MAX_LINE_SIZE ? (char*)realloc(line, new_size) : NULL;
+                    if (new_line == NULL) {
+                        mcp_log_error("SSE line too long (%zu bytes)", line_len);
+                        failed = true;
+                        break;
+                    }
+                    line = new_line;
+                    line_size = new_size;
+                }
+                if (c != '\n' && c != '\r') {
+                    line[line_len++] = c;
+                    continue;
+                }
+                line[line_len] = '\0';
+                line_len = 0;
+
                 // Process the line and check if an event is complete
                 if (process_sse_line(line, &event_type, &event_id, &event_data)) {
                     // Create and process the complete event
@@ -723,11 +771,12 @@ void* http_client_event_thread_func(void* arg) {
                     // Reset event state for next event
                     cleanup_event_state(&event_type, &event_id, &event_data);
                 }
-
-                // Get next line
-                line = strtok(NULL, "\r\n");
+            }
+            if (failed) {
+                break;
             }
         }
+        free(line);
 
         // Log reason for loop exit
         if (bytes_read < 0 && data->running) {
diff --git a/src/transport/mcp_http_client_transport.c b/src/transport/mcp_http_client_transport.c
index 849d351..872cb7a 100644
--- a/src/transport/mcp_http_client_transport.c
+++ b/src/transport/mcp_http_client_transport.c
@@ -87,7 +87,14 @@ static void cleanup_transport_data(http_client_transport_data_t* data) {
     safe_free_string(&data->cert_path);
     safe_free_string(&data->key_path);
     safe_free_string(&data->api_key);
-    safe_free_string(&data->last_response);
+    safe_free_string(&data->last_event_id);
+
+    while (data->responses != NULL) {
+        http_client_pending_response_t* next = data->responses->next;
+        free(data->responses->text);
+        free(data->responses);
+        data->responses = next;
+    }
 
     // Clean up SSL context if it exists
     if (data->ssl_ctx != NULL) {
@@ -116,7 +123,7 @@ mcp_transport_t* mcp_transport_http_client_create_with_config(const mcp_http_cli
     }
 
     // Allocate transport structure
-    mcp_transport_t* transport = (mcp_transport_t*)malloc(sizeof(mcp_transport_t));
+    mcp_transport_t* transport = (mcp_transport_t*)calloc(1, sizeof(mcp_transport_t));
     if (transport == NULL) {
         mcp_log_error("Failed to allocate memory for HTTP client transport");
         return NULL;
@@ -136,10 +143,6 @@ mcp_transport_t* mcp_transport_http_client_create_with_config(const mcp_http_cli
     // Initialize SSL context to NULL
     data->ssl_ctx = NULL;
 
-    // Initialize response handling
-    data->last_response = NULL;
-    data->last_request_id = 0;
-
     // Copy configuration
     data->host = mcp_strdup(config->host);
     if (data->host == NULL) {
@@ -338,21 +341,16 @@ static int http_client_transport_stop(mcp_transport_t* transport) {
     // Set running flag to false to signal threads to stop
     data->running = false;
 
-    // Close the SSE socket and clean up SSL to unblock the event thread
+    // Shut the SSE socket down to unblock the event thread, which closes it itself
     mcp_mutex_lock(data->mutex);
 
-    // Clean up SSL if used
-    if (data->ssl_ctx != NULL) {
-        mcp_log_debug("Cleaning up SSL context");
-        http_client_ssl_cleanup(data->ssl_ctx);
-        data->ssl_ctx = NULL;
-    }
-
-    // Close socket
     if (data->sse_socket != MCP_INVALID_SOCKET) {
-        mcp_log_debug("Closing SSE socket to unblock event thread");
-        mcp_socket_close(data->sse_socket);
-        data->sse_socket = MCP_INVALID_SOCKET;
+        mcp_log_debug("Shutting down SSE socket to unblock event thread");
+#ifdef _WIN32
+        shutdown(data->sse_socket, SD_BOTH);
+#else
+        shutdown(data->sse_socket, SHUT_RDWR);
+#endif
     }
 
     mcp_mutex_unlock(data->mutex);
@@ -467,8 +465,18 @@ static char* clean_json_response(const char* response_data, size_t response_size
     if (clean_json[0] == '{') {
         // Find the matching closing brace
         int brace_count = 1;
+        bool in_string = false;
         for (size_t i = 1; i < response_size; i++) {
-            if (clean_json[i] == '{') {
+            if (in_string) {
+                // Braces inside strings do not count
+                if (clean_json[i] == '\\') {
+                    i++;
+                } else if (clean_json[i] == '"') {
+                    in_string = false;
+                }
+            } else if (clean_json[i] == '"') {
+                in_string = true;
+            } else if (clean_json[i] == '{') {
                 brace_count++;
             } else if (clean_json[i] == '}') {
                 brace_count--;
@@ -484,6 +492,37 @@ static char* clean_json_response(const char* response_data, size_t response_size
     return clean_json;
 }
 
+/**
+ * @brief Keeps a response until the calling thread receives it.
+ *
+ * @param data The transport data
+ * @param text The response text (will be owned by the transport on success)
+ * @return bool true if successful, false on failure
+ */
+static bool store_response(http_client_transport_data_t* data, char* text) {
+    unsigned long thread_id = mcp_get_thread_id();
+
+    mcp_mutex_lock(data->mutex);
+    http_client_pending_response_t* entry = data->responses;
+    while (entry != NULL && entry->thread_id != thread_id) {
+        entry = entry->next;
+    }
+    if (entry == NULL) {
+        entry = (http_client_pending_response_t*)calloc(1, sizeof(*entry));
+        if (entry == NULL) {
+            mcp_mutex_unlock(data->mutex);
+            return false;
+        }
+        entry->thread_id = thread_id;
+        entry->next = data->responses;
+        data->responses = entry;
+    }
+    free(entry->text);
+    entry->text = text;
+    mcp_mutex_unlock(data->mutex);
+    return true;
+}
+
 /**
  * @brief Sends data through an HTTP client transport.
  *
@@ -530,11 +569,7 @@ static int http_client_transport_send(mcp_transport_t* transport, const void* da
     }
 
     // Extract the request ID from the JSON-RPC request
-    uint64_t request_id = extract_request_id(json_data, json_size);
-    if (request_id == 0) {
-        mcp_log_error("Failed to extract request ID from JSON-RPC request");
-        return -1;
-    }
+    uint64_t request_id = extract_request_id(json_data, json_size); // Only for the log
 
     // Log the request data for debugging
     mcp_log_debug("HTTP client transport sending request (ID: %llu, size: %zu bytes)",
@@ -573,25 +608,13 @@ static int http_client_transport_send(mcp_transport_t* transport, const void* da
             mcp_log_debug("HTTP client transport received response for request ID %llu (size: %zu bytes)",
                          (unsigned long long)request_id, strlen(clean_json));
 
-            // Store the response in the transport data structure
-            mcp_mutex_lock(data_struct->mutex);
-
-            // Free previous response if any
-            safe_free_string(&data_struct->last_response);
-
-            // Store the new response
-            data_struct->last_response = mcp_strdup(clean_json);
-            if (data_struct->last_response != NULL) {
-                data_struct->last_request_id = request_id;
+            // Keep the response for the receive call of this thread
+            if (store_response(data_struct, clean_json)) {
                 result = 0; // Success
             } else {
                 mcp_log_error("Failed to store HTTP response");
+                free(clean_json);
             }
-
-            mcp_mutex_unlock(data_struct->mutex);
-
-            // Free the temporary JSON data
-            free(clean_json);
         } else {
             mcp_log_error("Failed to clean JSON response");
         }
@@ -732,22 +755,18 @@ static int http_client_transport_receive(mcp_transport_t* transport, char** data
     // Get the stored response with thread safety
     mcp_mutex_lock(data_struct->mutex);
 
-    if (data_struct->last_response != NULL) {
-        // Make a copy of the response
-        *data = mcp_strdup(data_struct->last_response);
-        if (*data != NULL) {
-            *size = strlen(*data);
-            mcp_log_debug("HTTP client transport receive: Retrieved stored response (ID: %llu, %zu bytes)",
-                         (unsigned long long)data_struct->last_request_id, *size);
-
-            // Free the stored response to avoid memory leaks
-            safe_free_string(&data_struct->last_response);
-            data_struct->last_request_id = 0;
-
+    unsigned long thread_id = mcp_get_thread_id();
+    for (http_client_pending_response_t** link = &data_struct->responses; *link != NULL; link = &(*link)->next) {
+        http_client_pending_response_t* entry = *link;
+        if (entry->thread_id == thread_id) {
+            *link = entry->next;
             mcp_mutex_unlock(data_struct->mutex);
+
+            *data = entry->text;
+            *size = strlen(entry->text);
+            mcp_log_debug("HTTP client transport receive: Retrieved stored response (%zu bytes)", *size);
+            free(entry);
             return 0;
-        } else {
-            mcp_log_error("Failed to duplicate response string");
         }
     }
 
-- 
2.43.0


From 6c726b44f28a375c8289865be5e169d06e56158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:16 +0000
Subject: [PATCH 31/63] fix: WebSocket server survives messages larger than a
 pool buffer

The receive buffer taken from the buffer pool was passed to realloc when a
message outgrew it, and an ordinary buffer of the same size was handed to the
pool. The client now remembers where its buffer came from.
---
 .../internal/websocket_server_internal.h      |  1 +
 src/transport/mcp_websocket_server_client.c   | 28 +++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/transport/internal/websocket_server_internal.h b/src/transport/internal/websocket_server_internal.h
index eb4193d..8ffbb07 100644
--- a/src/transport/internal/websocket_server_internal.h
+++ b/src/transport/internal/websocket_server_internal.h
@@ -38,6 +38,7 @@ typedef struct {
     char* receive_buffer;           // Receive buffer
     size_t receive_buffer_len;      // Receive buffer length
     size_t receive_buffer_used;     // Used receive buffer length
+    bool receive_buffer_pooled;     // Whether the receive buffer belongs to the buffer pool
     int client_id;                  // Client ID for tracking
     time_t last_activity;           // Time of last activity for timeout detection
     uint32_t ping_sent;             // Number of pings sent without response
diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 4dd2350..e586bf2 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -11,6 +11,7 @@ int ws_server_client_init(ws_client_t* client, int client_id, struct lws* wsi) {
     client->receive_buffer = NULL;
     client->receive_buffer_len = 0;
     client->receive_buffer_used = 0;
+    client->receive_buffer_pooled = false;
     client->client_id = client_id;
     client->last_activity = time(NULL);
     client->ping_sent = 0;
@@ -26,13 +27,9 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
 
     // Free receive buffer
     if (client->receive_buffer) {
-        // Get buffer size from config or default
-        uint32_t buffer_size = server_data && server_data->config.buffer_size > 0 ?
-                              server_data->config.buffer_size : DEFAULT_BUFFER_POOL_BUFFER_SIZE;
-
         // If buffer pool exists and buffer size matches pool buffer size, return to pool
         if (server_data && server_data->buffer_pool &&
-            client->receive_buffer_len == buffer_size) {
+            client->receive_buffer_pooled) {
             mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
             mcp_log_debug("Returned buffer to pool for client %d", client->client_id);
         } else {
@@ -48,6 +45,7 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
         client->receive_buffer = NULL;
         client->receive_buffer_len = 0;
         client->receive_buffer_used = 0;
+        client->receive_buffer_pooled = false;
     }
 
     // Reset client state
@@ -121,7 +119,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Free old buffer if it exists
             if (client->receive_buffer) {
                 // If old buffer was from pool, return it to pool
-                if (client->receive_buffer_len == buffer_size && server_data->buffer_pool) {
+                if (client->receive_buffer_pooled && server_data->buffer_pool) {
                     mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
                 } else {
                     free(client->receive_buffer);
@@ -134,6 +132,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Update buffer information
             client->receive_buffer = new_buffer;
             client->receive_buffer_len = buffer_size;
+            client->receive_buffer_pooled = true;
             return 0;
         } else if (server_data) {
             // Failed to get buffer from pool
@@ -142,12 +141,22 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
     }
 
     // Fall back to regular allocation if pool is not available or buffer is too large
-    if (client->receive_buffer) {
+    if (client->receive_buffer && client->receive_buffer_pooled) {
+        // A buffer of the pool cannot be resized: copy it and give it back
+        new_buffer = (char*)malloc(new_len);
+
+        if (new_buffer) {
+            memcpy(new_buffer, client->receive_buffer, client->receive_buffer_used);
+            mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
+            server_data->total_buffer_memory += new_len;
+            server_data->buffer_allocs++;
+        }
+    } else if (client->receive_buffer) {
         // Try to reuse existing buffer with realloc for better performance
         new_buffer = (char*)realloc(client->receive_buffer, new_len);
 
         // Update memory statistics if server_data is provided
-        if (server_data) {
+        if (new_buffer && server_data) {
             server_data->total_buffer_memory -= client->receive_buffer_len;
             server_data->total_buffer_memory += new_len;
             server_data->buffer_allocs++;
@@ -157,7 +166,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
         new_buffer = (char*)malloc(new_len);
 
         // Update memory statistics if server_data is provided
-        if (server_data) {
+        if (new_buffer && server_data) {
             server_data->total_buffer_memory += new_len;
             server_data->buffer_allocs++;
         }
@@ -171,6 +180,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
     // Update buffer information
     client->receive_buffer = new_buffer;
     client->receive_buffer_len = new_len;
+    client->receive_buffer_pooled = false;
     return 0;
 }
 
-- 
2.43.0


From 5a4cbee40ffe4cd575bae1dd1c48f89aaefdf99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:37 +0000
Subject: [PATCH 32/63] fix: WebSocket server counts a closed connection once

Closing a connection lowered the number of active clients twice. After a few
closes the counter was wrong or wrapped around, so that the server accepted too
many clients or refused every new one.
---
 src/transport/mcp_websocket_server_callback.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 69c5d17..c5cadfc 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -72,14 +72,11 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
                 ws_server_lock_all_clients(data);
 
                 // Clear client data and update statistics
-                ws_server_clear_client_bit(data->client_bitmap, client->client_id, data->bitmap_size);
-                data->active_clients--;
+                ws_server_client_cleanup(client, data);
 
                 mcp_log_ws_info("client %d disconnected (active: %u, max: %u)",
                                 client->client_id, data->active_clients, data->max_clients);
 
-                ws_server_client_cleanup(client, data);
-
                 ws_server_unlock_all_clients(data);
             }
             break;
-- 
2.43.0


From 036e9e83de8216408dc70cb2decc1df01c136538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:37 +0000
Subject: [PATCH 33/63] fix: WebSocket server accepts empty fragments

A message whose last fragment was empty closed the connection without a
response.
---
 src/transport/mcp_websocket_server_client.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index e586bf2..44ab19b 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -366,13 +366,21 @@ int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client
 // Handle received data
 int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* client,
     struct lws* wsi, void* in, size_t len, bool is_final) {
-    if (!data || !client || !wsi || !in || len == 0) {
+    if (!data || !client || !wsi || (!in && len > 0)) {
         return -1;
     }
 
     // Update client activity timestamp
     ws_server_client_update_activity(client);
 
+    // An empty fragment adds nothing but may be the last one of a message
+    if (len == 0) {
+        if (is_final && client->receive_buffer_used > 0) {
+            return ws_server_client_process_message(data, client, wsi);
+        }
+        return 0;
+    }
+
     // Ensure buffer is large enough
     if (client->receive_buffer_used + len > client->receive_buffer_len) {
         if (ws_server_client_resize_buffer(client, client->receive_buffer_used + len, data) != 0) {
-- 
2.43.0


From c8653ec1e35e20d8c2d08eed06f08a34f7d288f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:16 +0000
Subject: [PATCH 34/63] fix: HTTP server matches whole query parameter names

A parameter whose name ends in another one's name, such as param_name before
name, was taken for it.
---
 src/transport/mcp_http_server_callbacks.c | 8 +++++++-
 src/transport/mcp_http_server_handlers.c  | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 07b5055..c7095f4 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -510,8 +510,11 @@ static char* extract_query_param(const char* query, const char* param_name) {
 
     sprintf(prefix, "%s=", param_name);
 
-    // Find the parameter in the query string
+    // Find the parameter in the query string, at its start or after a separator
     const char* param_start = strstr(query, prefix);
+    while (param_start != NULL && param_start != query && param_start[-1] != '&') {
+        param_start = strstr(param_start + 1, prefix);
+    }
     free(prefix); // Free the prefix buffer
 
     if (param_start == NULL) {
@@ -700,6 +703,9 @@ static char* extract_session_id_from_query(const char* query) {
 
     // Look for session_id parameter
     const char* session_id_param = strstr(query, "session_id=");
+    while (session_id_param != NULL && session_id_param != query && session_id_param[-1] != '&') {
+        session_id_param = strstr(session_id_param + 1, "session_id=");
+    }
     if (session_id_param == NULL) {
         return NULL;
     }
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index ffb58cc..c9043e6 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -315,8 +315,11 @@ static char* extract_query_param(const char* query, const char* param_name) {
 
     sprintf(prefix, "%s=", param_name);
 
-    // Find the parameter in the query string
+    // Find the parameter in the query string, at its start or after a separator
     const char* param_start = strstr(query, prefix);
+    while (param_start != NULL && param_start != query && param_start[-1] != '&') {
+        param_start = strstr(param_start + 1, prefix);
+    }
     free(prefix); // Free the prefix buffer
 
     if (param_start == NULL) {
-- 
2.43.0


From ec869e3817dc37661fbef32c79bfa1eedba73a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:16 +0000
Subject: [PATCH 35/63] fix: HTTP server frees request bodies and answers empty
 ones

The body of a request was never freed, so every request after the first on a
connection leaked one. A request with an empty body closed the connection
instead of getting an error response.
---
 src/transport/mcp_http_server_callbacks.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index c7095f4..32c1cac 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -746,11 +746,16 @@ static char* extract_session_id_from_query(const char* query) {
 static int handle_http_body(struct lws* wsi, http_session_data_t* session, void* in, size_t len) {
     (void)wsi;
 
-    if (session == NULL || in == NULL || len == 0) {
+    if (session == NULL || (in == NULL && len > 0)) {
         mcp_log_error("Invalid parameters for handle_http_body");
         return -1;
     }
 
+    // An empty body is answered when it is complete
+    if (len == 0) {
+        return 0;
+    }
+
     mcp_log_debug("Received HTTP body chunk: %zu bytes", len);
 
     // Accumulate request body
@@ -1492,6 +1497,11 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
                                               session->request_len,
                                               &error_code);
 
+        // The body has been handled; the next request on this connection starts afresh
+        free(session->request_buffer);
+        session->request_buffer = NULL;
+        session->request_len = 0;
+
         // Handle successful response
         if (response != NULL) {
             mcp_log_debug("Message callback returned response: %zu bytes", strlen(response));
-- 
2.43.0


From ce32e12ec4ebfc1d300cc0b9d3468dcd3b88ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:34 +0000
Subject: [PATCH 36/63] fix: HTTP server thread sets up its JSON arena

Tool calls made with GET were refused until some other request had created the
arena, and the arena was never released.
---
 src/transport/mcp_http_server_callbacks.c | 2 ++
 src/transport/mcp_http_transport.c        | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 32c1cac..733f79a 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -3,6 +3,7 @@
 #include "mcp_json.h"
 #include "mcp_log.h"
 #include "mcp_string_utils.h"
+#include "mcp_thread_local.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -685,6 +686,7 @@ static char* build_jsonrpc_request_from_query(const char* query) {
 
     // Clean up
     mcp_json_destroy(request_obj); // This will also destroy params_obj and args_obj
+    mcp_arena_reset_current_thread();
     free(decoded_tool_name);
 
     return request_json;
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index 7ad7d8c..5681d38 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -5,6 +5,8 @@
 #include "mcp_sync.h"
 #include "mcp_thread_pool.h"
 #include "mcp_string_utils.h"
+#include "mcp_thread_local.h"
+#include "mcp_arena.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -637,6 +639,11 @@ void* http_event_thread_func(void* arg) {
         return NULL;
     }
 
+    // Requests are turned into JSON on this thread
+    if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena in HTTP event thread");
+    }
+
     mcp_log_info("HTTP event thread started");
 
     // Run event loop until data->running is set to false
@@ -652,6 +659,8 @@ void* http_event_thread_func(void* arg) {
         send_sse_heartbeat(data);
     }
 
+    mcp_arena_destroy_current_thread();
+
     mcp_log_info("HTTP event thread exited");
     return NULL;
 }
-- 
2.43.0


From 0b2c986cba2da8437118d28ea64d076ffc797919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:34 +0000
Subject: [PATCH 37/63] fix: HTTP server closes connections that are not kept
 alive

The library's answer that a connection must close after the transaction was
ignored, so a client that asked for it waited for ever.
---
 src/transport/mcp_http_server_callbacks.c | 19 +++++++------------
 src/transport/mcp_http_server_handlers.c  |  2 +-
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 733f79a..98d5dd5 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -390,7 +390,7 @@ static int send_http_response(struct lws* wsi, int status_code, const char* cont
         mcp_log_debug("HTTP handler: Transaction completed, connection will close");
     }
 
-    return 0;
+    return should_close ? -1 : 0;
 }
 
 /**
@@ -918,8 +918,7 @@ static int handle_http_root_request(struct lws* wsi) {
     lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
 
     // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return lws_http_transaction_completed(wsi) ? -1 : 0;
 }
 
 // Handle tool call request
@@ -953,8 +952,7 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
         }
 
         // Complete HTTP transaction (no body for OPTIONS)
-        lws_http_transaction_completed(wsi);
-        return 0;
+        return lws_http_transaction_completed(wsi) ? -1 : 0;
     }
     // Handle POST request
     else if (method[0] != '\0' && strcmp(method, "POST") == 0) {
@@ -1080,8 +1078,7 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
         mcp_log_info("Wrote %d bytes", bytes_written);
 
         // Complete HTTP transaction
-        lws_http_transaction_completed(wsi);
-        return 0;
+        return lws_http_transaction_completed(wsi) ? -1 : 0;
     }
 }
 
@@ -1147,8 +1144,7 @@ static int handle_http_tools_request(struct lws* wsi, http_transport_data_t* dat
     mcp_log_info("Wrote %d bytes for tool discovery", bytes_written);
 
     // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return lws_http_transaction_completed(wsi) ? -1 : 0;
 }
 
 // Handle static file request
@@ -1348,8 +1344,7 @@ static int handle_http_404(struct lws* wsi, const char* uri) {
     lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
 
     // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return lws_http_transaction_completed(wsi) ? -1 : 0;
 }
 
 /**
@@ -1568,7 +1563,7 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
             if (should_close) {
                 mcp_log_debug("HTTP handler: Transaction completed, connection will close");
             }
-            return 0;
+            return should_close ? -1 : 0;
         }
         // Handle error response
         else {
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index c9043e6..3e0d8fa 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -141,7 +141,7 @@ int lws_root_handler(struct lws* wsi, enum lws_callback_reasons reason,
             mcp_log_debug("HTTP handler: Transaction completed, connection will close");
         }
 
-        return 0;
+        return should_close ? -1 : 0;
     }
 
     // For all other callbacks, return 0 to indicate success
-- 
2.43.0


From 4834333f2549576bdc947378076e122b23059b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:24 +0000
Subject: [PATCH 38/63] fix: HTTP server drops no tool arguments when memory is
 short

A tool call by query string whose arguments could not all be stored was
passed on without them. Refuse it instead, and free values that could not
be added to their object.
---
 src/transport/mcp_http_server_callbacks.c | 41 ++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 98d5dd5..bb17d83 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -76,6 +76,9 @@ static int mcp_json_object_set_string(mcp_json_t* json, const char* name, const
 
     // Set the property in the object
     int result = mcp_json_object_set_property(json, name, str_value);
+    if (result != 0) {
+        mcp_json_destroy(str_value);
+    }
 
     // Note: We don't need to destroy str_value here because mcp_json_object_set_property
     // takes ownership of it and will destroy it when the object is destroyed
@@ -104,6 +107,9 @@ static int mcp_json_object_set_number(mcp_json_t* json, const char* name, double
 
     // Set the property in the object
     int result = mcp_json_object_set_property(json, name, num_value);
+    if (result != 0) {
+        mcp_json_destroy(num_value);
+    }
 
     // Note: We don't need to destroy num_value here because mcp_json_object_set_property
     // takes ownership of it and will destroy it when the object is destroyed
@@ -605,6 +611,7 @@ static char* build_jsonrpc_request_from_query(const char* query) {
     }
 
     // Split the query string by '&'
+    bool failed = false;
     char* token = strtok(query_copy, "&");
     while (token != NULL) {
         // Check if this is a parameter token
@@ -615,6 +622,7 @@ static char* build_jsonrpc_request_from_query(const char* query) {
                 // Extract parameter name (after "param_" prefix)
                 size_t name_len = equals - (token + param_prefix_len);
                 char* param_name = (char*)malloc(name_len + 1);
+                bool added = false;
                 if (param_name != NULL) {
                     strncpy(param_name, token + param_prefix_len, name_len);
                     param_name[name_len] = '\0';
@@ -628,13 +636,16 @@ static char* build_jsonrpc_request_from_query(const char* query) {
 
                         if (decoded_value != NULL) {
                             // Add the parameter to the arguments object
-                            mcp_json_object_set_string(args_obj, param_name, decoded_value);
+                            added = mcp_json_object_set_string(args_obj, param_name, decoded_value) == 0;
                             free(decoded_value);
                         }
                     }
 
                     free(param_name);
                 }
+                if (!added) {
+                    failed = true;
+                }
             }
         }
 
@@ -644,6 +655,14 @@ static char* build_jsonrpc_request_from_query(const char* query) {
 
     free(query_copy);
 
+    // A call with only some of its arguments must not reach the tool
+    if (failed) {
+        mcp_log_error("Failed to add tool arguments");
+        mcp_json_destroy(args_obj);
+        free(decoded_tool_name);
+        return NULL;
+    }
+
     // Create the JSON-RPC request
     mcp_json_t* request_obj = mcp_json_object_create();
     if (request_obj == NULL) {
@@ -654,13 +673,13 @@ static char* build_jsonrpc_request_from_query(const char* query) {
     }
 
     // Add the JSON-RPC version
-    mcp_json_object_set_string(request_obj, "jsonrpc", "2.0");
+    failed |= mcp_json_object_set_string(request_obj, "jsonrpc", "2.0") != 0;
 
     // Add the request ID (use 1 as a default)
-    mcp_json_object_set_number(request_obj, "id", 1);
+    failed |= mcp_json_object_set_number(request_obj, "id", 1) != 0;
 
     // Add the method
-    mcp_json_object_set_string(request_obj, "method", "call_tool");
+    failed |= mcp_json_object_set_string(request_obj, "method", "call_tool") != 0;
 
     // Create the params object
     mcp_json_t* params_obj = mcp_json_object_create();
@@ -673,16 +692,22 @@ static char* build_jsonrpc_request_from_query(const char* query) {
     }
 
     // Add the tool name to the params
-    mcp_json_object_set_string(params_obj, "name", decoded_tool_name);
+    failed |= mcp_json_object_set_string(params_obj, "name", decoded_tool_name) != 0;
 
     // Add the arguments to the params
-    mcp_json_object_set_property(params_obj, "arguments", args_obj);
+    if (mcp_json_object_set_property(params_obj, "arguments", args_obj) != 0) {
+        mcp_json_destroy(args_obj);
+        failed = true;
+    }
 
     // Add the params to the request
-    mcp_json_object_set_property(request_obj, "params", params_obj);
+    if (mcp_json_object_set_property(request_obj, "params", params_obj) != 0) {
+        mcp_json_destroy(params_obj);
+        failed = true;
+    }
 
     // Convert the request object to a string
-    char* request_json = mcp_json_stringify(request_obj);
+    char* request_json = failed ? NULL : mcp_json_stringify(request_obj);
 
     // Clean up
     mcp_json_destroy(request_obj); // This will also destroy params_obj and args_obj
-- 
2.43.0


From 0856ae4fbb43d149a51e8e386a70a8d1d0595399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:02 +0000
Subject: [PATCH 39/63] fix: streamable HTTP server no longer crashes on a
 DELETE request

The method of a request that is neither GET, POST nor OPTIONS was looked up
with null pointers that the library writes through, so any client could end
the server process with one DELETE request to the endpoint.
---
 src/transport/mcp_sthttp_threads.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..744fc53 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -177,7 +177,9 @@ int handle_mcp_endpoint_request(struct lws* wsi, sthttp_transport_data_t* data,
         strncpy(method, "OPTIONS", sizeof(method) - 1);
     } else {
         // Try to determine method from other headers
-        int method_idx = lws_http_get_uri_and_method(wsi, NULL, NULL);
+        char* uri_ptr = NULL;
+        int uri_len = 0;
+        int method_idx = lws_http_get_uri_and_method(wsi, &uri_ptr, &uri_len);
         switch (method_idx) {
             case LWSHUMETH_GET:
                 strncpy(method, "GET", sizeof(method) - 1);
-- 
2.43.0


From 7a252184b28390246c206bb80ecccfc3387b9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 40/63] fix: streamable HTTP server leaves enough room for
 response headers

The security headers that the library adds to every response take about 400
bytes. They did not fit together with the CORS headers into the buffer of a
preflight (OPTIONS) answer, nor into the buffer of a session termination
answer, so these connections were closed without any response.
---
 src/transport/mcp_sthttp_threads.c | 6 +++---
 src/transport/mcp_sthttp_utils.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 744fc53..d6bd6a3 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -338,7 +338,7 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
 
     // Prepare SSE response headers
     mcp_log_debug("handle_mcp_get_request: Preparing SSE response headers");
-    unsigned char headers[1024];  // Increased buffer size
+    unsigned char headers[2048];  // Increased buffer size
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
@@ -443,7 +443,7 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
     bool terminated = mcp_session_manager_terminate_session(data->session_manager, session_data->session_id);
     if (terminated) {
         // Send 204 No Content response
-        unsigned char headers[256];
+        unsigned char headers[1024];
         unsigned char* p = headers;
         unsigned char* end = headers + sizeof(headers);
 
@@ -470,7 +470,7 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data) {
     }
 
     // Prepare CORS response headers
-    unsigned char headers[512];
+    unsigned char headers[2048];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index a36a627..acd0a35 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -366,7 +366,7 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
     }
 
     // Prepare response headers
-    unsigned char headers[512];
+    unsigned char headers[1024];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
@@ -414,7 +414,7 @@ int send_http_json_response(struct lws* wsi, const char* json_data, const char*
     mcp_log_debug("send_http_json_response: sending %zu bytes of JSON data", strlen(json_data));
 
     // Prepare response headers
-    unsigned char headers[512];
+    unsigned char headers[1024];
     unsigned char* p = headers;
     unsigned char* end = headers + sizeof(headers);
 
-- 
2.43.0


From aaac4c88e90763beecb46b429cf4471cf4cdd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 41/63] fix: streamable HTTP server declares the length of
 error and preflight answers

These answers had no Content-Length although the connection is kept open, so
a client could not tell where they end and waited until it timed out.
---
 src/transport/mcp_sthttp_threads.c | 4 ++++
 src/transport/mcp_sthttp_utils.c   | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index d6bd6a3..0164d56 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -483,6 +483,10 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data) {
         return -1;
     }
 
+    if (lws_add_http_header_content_length(wsi, 0, &p, end)) {
+        return -1;
+    }
+
     if (lws_finalize_http_header(wsi, &p, end)) {
         return -1;
     }
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index acd0a35..a2c5024 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -379,6 +379,11 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
         return -1;
     }
 
+    const char* body = message ? message : status_text;
+    if (lws_add_http_header_content_length(wsi, strlen(body), &p, end)) {
+        return -1;
+    }
+
     if (lws_finalize_http_header(wsi, &p, end)) {
         return -1;
     }
@@ -389,7 +394,6 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
     }
 
     // Write body
-    const char* body = message ? message : status_text;
     if (lws_write(wsi, (unsigned char*)body, strlen(body), LWS_WRITE_HTTP) < 0) {
         return -1;
     }
-- 
2.43.0


From 713083af75a4b0c8bf0da875b64db4e1873fff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 42/63] fix: streamable HTTP server drops a request whose body
 could not be terminated

When memory ran out while the final zero byte was appended, the request was
processed anyway and read past the end of the body.
---
 src/transport/mcp_sthttp_callbacks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..06b7614 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -61,7 +61,9 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
 
         case LWS_CALLBACK_HTTP_BODY_COMPLETION:
             // Handle HTTP request body completion
-            handle_http_body_completion(wsi, data, session);
+            if (handle_http_body_completion(wsi, data, session) != 0) {
+                return -1;
+            }
 
             // Now process the POST request with complete body
             mcp_log_debug("Processing completed POST request for URI: %s", session->request_uri);
-- 
2.43.0


From 899ce41de0774f8a8b6bd2b3472a88dc88f127f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 43/63] fix: streamable HTTP server releases the body of every
 request

The library starts each request on a kept-open connection with fresh session
data, so the body of the request before was lost and never freed.
---
 src/transport/mcp_sthttp_threads.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 0164d56..5ce2475 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -227,6 +227,10 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     // Validate origin if required
     if (data->validate_origin && session_data->origin[0] != '\0') {
         if (!validate_origin(data, session_data->origin)) {
+            free(session_data->request_body);
+            session_data->request_body = NULL;
+            session_data->request_body_size = 0;
+            session_data->request_body_capacity = 0;
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
         }
     }
@@ -244,6 +248,12 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     // Process the JSON-RPC request
     char* response = process_jsonrpc_request(data, session_data->request_body, 
                                            session_data->has_session ? session_data->session_id : NULL);
+
+    // The session data does not outlive the response on a connection that is kept open
+    free(session_data->request_body);
+    session_data->request_body = NULL;
+    session_data->request_body_size = 0;
+    session_data->request_body_capacity = 0;
     if (response == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process request");
     }
-- 
2.43.0


From c2f2b4db996110dd13cfd9c451e9d255cafd58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 44/63] fix: stopping the streamable HTTP server does not wait
 for the cleanup interval

A stop that came just before the cleanup thread began to wait was not
noticed, and stopping then took a whole cleanup interval.
---
 src/transport/mcp_sthttp_threads.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 5ce2475..a53e4ea 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -83,9 +83,12 @@ void* sthttp_cleanup_thread_func(void* arg) {
         mcp_mutex_lock(data->cleanup_mutex);
 
         // Wait for cleanup interval or shutdown signal
-        int wait_result = mcp_cond_timedwait(data->cleanup_condition,
-                                            data->cleanup_mutex,
-                                            STHTTP_CLEANUP_INTERVAL_SECONDS * 1000);
+        int wait_result = 0;
+        if (!data->cleanup_shutdown) {
+            wait_result = mcp_cond_timedwait(data->cleanup_condition,
+                                             data->cleanup_mutex,
+                                             STHTTP_CLEANUP_INTERVAL_SECONDS * 1000);
+        }
 
         bool should_exit = data->cleanup_shutdown;
         mcp_mutex_unlock(data->cleanup_mutex);
-- 
2.43.0


From 97177a76d203179489453b74dc5f2d33030723e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 45/63] fix: streamable HTTP server closes an event stream that
 it cannot register

It sent a second response into the stream whose headers were already out.
---
 src/transport/mcp_sthttp_threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index a53e4ea..2905d99 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -405,7 +405,7 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
     // Add to dynamic SSE clients list
     if (dynamic_sse_clients_add(data->sse_clients, wsi) != 0) {
         mcp_log_error("Failed to add SSE client to dynamic array");
-        return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to register SSE client");
+        return -1; // The response headers are already sent, so the stream can only be closed
     }
 
     // Replay events if Last-Event-ID was provided
-- 
2.43.0


From 068fd0296814d34d20f80b8e054f0ebf5daa155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:36 +0000
Subject: [PATCH 46/63] fix: streamable HTTP server checks overlong origins and
 the origin of DELETE

A request whose Origin header did not fit the buffer counted as one without
an origin and was let through, and DELETE requests were not checked at all.
---
 src/transport/mcp_sthttp_callbacks.c | 3 +++
 src/transport/mcp_sthttp_threads.c   | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 06b7614..b4386ff 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -303,6 +303,9 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
     int origin_len = lws_hdr_copy(wsi, session->origin, sizeof(session->origin), WSI_TOKEN_ORIGIN);
     if (origin_len > 0) {
         mcp_log_debug("Origin header: %s", session->origin);
+    } else if (lws_hdr_total_length(wsi, WSI_TOKEN_ORIGIN) > 0) {
+        // An origin too long to be looked at is not an absent one
+        strcpy(session->origin, "invalid");
     } else {
         session->origin[0] = '\0';
     }
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 2905d99..f3301e4 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -447,6 +447,13 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
         return -1;
     }
 
+    // Validate origin if required
+    if (data->validate_origin && session_data->origin[0] != '\0') {
+        if (!validate_origin(data, session_data->origin)) {
+            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+        }
+    }
+
     // Session termination requires a session ID
     if (!session_data->has_session || data->session_manager == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Session termination requires a session");
-- 
2.43.0


From 362b03da0a727bfaff936ae28e1b1c884220ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:20 +0000
Subject: [PATCH 47/63] fix: streamable HTTP server waits for the body of a
 legacy tool call

A POST to the legacy /call_tool endpoint was answered "Request body required"
before its body had arrived.
---
 src/transport/mcp_sthttp_callbacks.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index b4386ff..919423b 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -67,7 +67,7 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
 
             // Now process the POST request with complete body
             mcp_log_debug("Processing completed POST request for URI: %s", session->request_uri);
-            if (strcmp(session->request_uri, data->mcp_endpoint) == 0) {
+            if (session->request_uri[0] != '\0') {
                 mcp_log_debug("Calling handle_mcp_endpoint_request for POST with body");
                 int result = handle_mcp_endpoint_request(wsi, data, session);
                 mcp_log_debug("handle_mcp_endpoint_request returned: %d", result);
@@ -121,8 +121,9 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
         return -1;
     }
 
-    // Check if this is the MCP endpoint
-    if (strcmp(uri, data->mcp_endpoint) == 0) {
+    // Check if this is the MCP endpoint or the legacy endpoint that takes the same requests
+    bool is_legacy_call = data->config.enable_legacy_endpoints && strcmp(uri, "/call_tool") == 0;
+    if (is_legacy_call || strcmp(uri, data->mcp_endpoint) == 0) {
         // For POST requests, we need to wait for the body
         char method[16] = {0};
 
@@ -152,13 +153,6 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
 
     // Check for legacy endpoints if enabled
     if (data->config.enable_legacy_endpoints) {
-        // Handle legacy /call_tool endpoint
-        if (strcmp(uri, "/call_tool") == 0) {
-            mcp_log_info("Legacy /call_tool endpoint accessed");
-            // Redirect to MCP endpoint or handle directly
-            return handle_mcp_endpoint_request(wsi, data, session);
-        }
-
         // Handle legacy /events endpoint
         if (strcmp(uri, "/events") == 0) {
             mcp_log_info("Legacy /events endpoint accessed");
-- 
2.43.0


From 290775818b56e71ec49430703d71afb2bffe6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:02 +0000
Subject: [PATCH 48/63] fix: release what was built when a JSON text turns out
 to be malformed

The parser left the strings, keys, tables and arrays it had built so far
allocated when it met an error.  A peer sending malformed messages made
the receiving process grow without limit.
---
 src/json/mcp_json_parser.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..5b0fcb8 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -204,13 +204,15 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         skip_whitespace(json);
         char* name = parse_string(json);
         if (name == NULL) {
-            // Don't destroy object here, let caller handle cleanup via arena reset/destroy
+            // The node stays in the arena, what it holds on the heap does not
+            mcp_json_destroy(object);
             return NULL;
         }
         skip_whitespace(json);
         if (**json != ':') {
             mcp_log_error("JSON parse error: Expected ':' after object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++; // Skip ':'
@@ -219,6 +221,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value for object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         // Set property using generic hash table
@@ -227,7 +230,8 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (mcp_hashtable_put(object->object_table, name, value) != 0) {
             mcp_log_error("JSON parse error: Failed to set property '%s' using mcp_hashtable_put.", name);
             free(name); // Free the parsed name string
-            // Don't destroy value (it's in arena), don't destroy object
+            mcp_json_destroy(value);
+            mcp_json_destroy(object);
             return NULL;
         }
         free(name);
@@ -238,6 +242,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or '}' after object property.");
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++;
@@ -268,13 +273,14 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         mcp_json_t* value = parse_value(json, depth + 1);
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value in array.");
-            // Don't destroy array, let caller handle via arena
+            mcp_json_destroy(array);
             return NULL;
         }
         // Add item uses realloc for backing store, not arena
         if (mcp_json_array_add_item(array, value) != 0) {
             mcp_log_error("JSON parse error: Failed to add item to array.");
-            // Don't destroy value (it's in arena)
+            mcp_json_destroy(value);
+            mcp_json_destroy(array);
             return NULL;
         }
         skip_whitespace(json);
@@ -284,6 +290,7 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or ']' after array element.");
+            mcp_json_destroy(array);
             return NULL;
         }
         (*json)++;
@@ -385,7 +392,7 @@ mcp_json_t* mcp_json_parse(const char* json) {
     if (*current != '\0') {
         mcp_log_error("JSON parse error: Trailing characters found after valid JSON: '%s'", current);
         // Trailing characters after valid JSON
-        // Don't destroy result (it's in thread-local arena), let caller handle arena.
+        mcp_json_destroy(result);
         return NULL;
     }
     return result;
-- 
2.43.0


From 173cc473a252626d9d9a92924b37484d9763f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:02 +0000
Subject: [PATCH 49/63] fix: release the parts of an error response after
 writing it out

The strings and tables of every error response stayed allocated.
---
 src/json/mcp_json_message.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 17e03e7..231e465 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -655,8 +655,11 @@ char* mcp_json_create_error_response(uint64_t id, int error_code, const char* er
         final_json_string = mcp_json_stringify(response); // Uses malloc
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC error response.");
-        mcp_json_destroy(response); // Clean up arena nodes if creation failed
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(error_obj);
+        mcp_json_destroy(msg_node);
     }
+    mcp_json_destroy(response); // The nodes stay in the arena, what they hold on the heap does not
 
     PROFILE_END("mcp_json_create_error_response");
     return final_json_string;
-- 
2.43.0


From 4b580fb6c946e7ab2c036957da77771afe2cc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:02 +0000
Subject: [PATCH 50/63] fix: release the parsed gateway configuration after
 loading it

The comments relied on the arena, which does not own strings, keys and
tables of JSON values.
---
 src/gateway/mcp_gateway_config.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index 4c63bed..5923d98 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -276,7 +276,7 @@ mcp_error_code_t load_gateway_config(
 
     if (mcp_json_get_type(root_json) != MCP_JSON_ARRAY) {
         mcp_log_error("Gateway config: Root element must be an array: %s", config_path);
-        // mcp_json_destroy(root_json); // Assuming arena cleanup handles this
+        mcp_json_destroy(root_json);
         return MCP_ERROR_PARSE_ERROR;
     }
 
@@ -284,7 +284,7 @@ mcp_error_code_t load_gateway_config(
     size_t num_backends_in_json = mcp_json_array_get_size(root_json);
     if (num_backends_in_json == 0) {
         mcp_log_info("Gateway config file contains an empty array. No backends loaded.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_NONE; // Valid empty config
     }
 
@@ -293,7 +293,7 @@ mcp_error_code_t load_gateway_config(
     temp_list = (mcp_backend_info_t*)malloc(backend_capacity * sizeof(mcp_backend_info_t));
     if (!temp_list) {
         mcp_log_error("Gateway config: Failed to allocate temporary backend list.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_INTERNAL_ERROR;
     }
     memset(temp_list, 0, backend_capacity * sizeof(mcp_backend_info_t)); // Zero initialize
@@ -393,12 +393,12 @@ mcp_error_code_t load_gateway_config(
     // 4. Success - Assign results
     *out_backend_list = temp_list;
     *out_backend_count = backend_count;
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return MCP_ERROR_NONE;
 
 cleanup_error:
     // Free partially populated temp list
     mcp_free_backend_list(temp_list, backend_capacity); // Unused structs are all zero
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return err;
 }
-- 
2.43.0


From 2ed115c0719890925a4c3eaa1bc0397e800b092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:35 +0000
Subject: [PATCH 51/63] fix: do not resolve escapes in query arguments a second
 time

---
 src/transport/mcp_http_server_callbacks.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index bb17d83..3306825 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -447,7 +447,8 @@ static int send_http_json_response(struct lws* wsi, int status_code, const char*
 /**
  * @brief URL decode a string
  *
- * This function decodes URL-encoded strings, handling %xx escapes and + as space.
+ * This function decodes + as space. libwebsockets has resolved the %xx escapes
+ * already; doing so again would change values that contain a percent sign.
  *
  * @param src The URL-encoded string to decode
  * @return char* The decoded string (caller must free) or NULL on failure
@@ -470,12 +471,7 @@ static char* url_decode(const char* src) {
     char* dst_ptr = decoded;
 
     while (*src_ptr) {
-        if (*src_ptr == '%' && src_ptr[1] && src_ptr[2]) {
-            // Handle %xx escape
-            char hex[3] = {src_ptr[1], src_ptr[2], 0};
-            *dst_ptr = (char)strtol(hex, NULL, 16);
-            src_ptr += 3;
-        } else if (*src_ptr == '+') {
+        if (*src_ptr == '+') {
             // Handle + as space
             *dst_ptr = ' ';
             src_ptr++;
-- 
2.43.0


From 46956678e633aecbdefda27cd31caa87489b1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:50 +0000
Subject: [PATCH 52/63] fix: apply the request time-out to responses over
 pooled connections

A server that accepted a request and never answered kept the caller
waiting forever.
---
 src/transport/mcp_tcp_pool_transport.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport/mcp_tcp_pool_transport.c b/src/transport/mcp_tcp_pool_transport.c
index f173600..48af1e4 100644
--- a/src/transport/mcp_tcp_pool_transport.c
+++ b/src/transport/mcp_tcp_pool_transport.c
@@ -237,6 +237,10 @@ static socket_handle_t tcp_pool_get_connection(mcp_tcp_pool_transport_data_t* da
     if (sock == INVALID_SOCKET_HANDLE) {
         int error_code = mcp_socket_get_lasterror();
         mcp_log_error("Failed to get connection from pool (error: %d)", error_code);
+    } else if (data->request_timeout_ms > 0 &&
+               (mcp_socket_restore_blocking(sock, 0) != 0 ||
+                mcp_socket_set_timeout(sock, (uint32_t)data->request_timeout_ms) != 0)) {
+        mcp_log_warn("Failed to set the request timeout on a pooled connection");
     }
 
     return sock;
-- 
2.43.0


From 348a1c673bad5ca77c03050b15d310ff5a1dbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:27 +0000
Subject: [PATCH 53/63] fix: let a broken pooled connection fail only the call
 using it

The pooled transport reported every failing connection as a failure of
the whole transport, upon which the client failed all calls in progress,
those on healthy connections included.
---
 src/transport/mcp_tcp_pool_transport.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/transport/mcp_tcp_pool_transport.c b/src/transport/mcp_tcp_pool_transport.c
index 48af1e4..1b76b8b 100644
--- a/src/transport/mcp_tcp_pool_transport.c
+++ b/src/transport/mcp_tcp_pool_transport.c
@@ -304,13 +304,11 @@ static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t so
 
     mcp_tcp_pool_transport_data_t* data = (mcp_tcp_pool_transport_data_t*)transport->transport_data;
 
-    // Release connection back to pool as invalid
+    // Release connection back to pool as invalid. The error callback is not called:
+    // it means that the whole transport failed, while the other connections still
+    // work and the caller learns about the failure from the return value.
+    (void)error_code;
     mcp_connection_pool_release(data->connection_pool, sock, false);
-
-    // Call error callback if set
-    if (transport->error_callback) {
-        transport->error_callback(transport->callback_user_data, error_code);
-    }
 }
 
 /**
@@ -352,10 +350,6 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
-        int error_code = mcp_socket_get_lasterror();
-        if (transport->error_callback) {
-            transport->error_callback(transport->callback_user_data, error_code);
-        }
         return -1;
     }
 
@@ -449,10 +443,6 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
-        int error_code = mcp_socket_get_lasterror();
-        if (transport->error_callback) {
-            transport->error_callback(transport->callback_user_data, error_code);
-        }
         return -1;
     }
 
-- 
2.43.0


From 594f039f404bb04be602cd9d29a83ea337513f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:00 +0000
Subject: [PATCH 54/63] fix: do not match or fill in templates wrongly when
 memory is short

---
 src/common/mcp_template.c           |  8 ++++++++
 src/common/mcp_template_optimized.c | 28 ++++++++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 8cf91ba..ad1463b 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -184,6 +184,10 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         } else if (strncmp(type_str, "pattern:", 8) == 0) {
             validation->type = MCP_TEMPLATE_PARAM_TYPE_CUSTOM;
             validation->pattern = mcp_strdup(type_str + 8);
+            if (validation->pattern == NULL) {
+                free(spec_copy);
+                return -1;
+            }
         } else {
             // Default to string
             validation->type = MCP_TEMPLATE_PARAM_TYPE_STRING;
@@ -198,6 +202,10 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         name_end++; // Skip '='
         // The rest of the string is the default value
         validation->default_value = mcp_strdup(name_end);
+        if (validation->default_value == NULL) {
+            free(spec_copy);
+            return -1;
+        }
         validation->required = false; // If there's a default, it's not required
     }
 
diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 6f0e4e0..e848d9f 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -426,9 +426,9 @@ static int template_matches_locked(const char* uri, const char* template_uri) {
     if (cached == NULL) {
         cached = mcp_template_cache_add(template_uri);
         if (cached == NULL) {
-            // Fall back to the original implementation
-            mcp_log_debug("Failed to create cached template, falling back to original implementation");
-            return mcp_template_matches(uri, template_uri);
+            // Malformed template or out of memory
+            mcp_log_debug("Failed to create cached template");
+            return 0;
         }
     }
 
@@ -525,8 +525,8 @@ static mcp_json_t* template_extract_params_locked(const char* uri, const char* t
     if (cached == NULL) {
         cached = mcp_template_cache_add(template_uri);
         if (cached == NULL) {
-            // Fall back to the original implementation
-            return mcp_template_extract_params(uri, template_uri);
+            // Malformed template or out of memory
+            return NULL;
         }
     }
 
@@ -588,14 +588,18 @@ static mcp_json_t* template_extract_params_locked(const char* uri, const char* t
                             break;
                     }
 
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
+                    if (value == NULL || mcp_json_object_set_property(params, cached->param_names[i], value) != 0) {
+                        mcp_json_destroy(value);
+                        mcp_json_destroy(params);
+                        return NULL;
                     }
                 } else {
                     // No default value, add an empty string
                     mcp_json_t* value = mcp_json_string_create("");
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
+                    if (value == NULL || mcp_json_object_set_property(params, cached->param_names[i], value) != 0) {
+                        mcp_json_destroy(value);
+                        mcp_json_destroy(params);
+                        return NULL;
                     }
                 }
 
@@ -715,7 +719,11 @@ static mcp_json_t* template_extract_params_locked(const char* uri, const char* t
         }
 
         // Add the parameter to the JSON object
-        mcp_json_object_set_property(params, cached->param_names[i], value);
+        if (mcp_json_object_set_property(params, cached->param_names[i], value) != 0) {
+            mcp_json_destroy(value);
+            mcp_json_destroy(params);
+            return NULL;
+        }
 
         // Move past this parameter and static part
         u = next_static_in_uri + next_static_len;
-- 
2.43.0


From f5025b55ae2d6f2a39464e931246b3ff475f525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:47 +0000
Subject: [PATCH 55/63] fix: expand templates with numbers safely from several
 threads

---
 src/common/mcp_template.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index ad1463b..418e45c 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -400,6 +400,8 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
  * @param param_name Buffer to store the parameter name
  * @param param_name_size Size of the param_name buffer
  * @param params JSON object containing parameter values
+ * @param number_str Buffer for the text of a number value
+ * @param number_str_size Size of the number_str buffer
  * @param param_value_out Pointer to store the parameter value
  * @param validation Validation structure to fill
  * @return 0 on success, -1 on error
@@ -409,6 +411,8 @@ static int process_template_param(
     char* param_name,
     size_t param_name_size,
     const mcp_json_t* params,
+    char* number_str,
+    size_t number_str_size,
     const char** param_value_out,
     mcp_template_param_validation_t* validation
 ) {
@@ -430,15 +434,14 @@ static int process_template_param(
     }
     // Handle number values by converting to string
     else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_NUMBER) {
-        // Convert number to string using a static buffer
-        static char number_str[64]; // Should be enough for any reasonable number
+        // Convert number to string using the caller's buffer
         double number_value;
         if (mcp_json_get_number(value_node, &number_value) == 0) {
             // Format as integer if it's a whole number
             if (number_value == (int)number_value) {
-                snprintf(number_str, sizeof(number_str), "%d", (int)number_value);
+                snprintf(number_str, number_str_size, "%d", (int)number_value);
             } else {
-                snprintf(number_str, sizeof(number_str), "%g", number_value);
+                snprintf(number_str, number_str_size, "%g", number_value);
             }
             param_value = number_str;
             param_found = true;
@@ -516,10 +519,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
@@ -566,10 +570,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
-- 
2.43.0


From 28f3ae265968dc123cc5fba7d94c1b2911e8753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:40 +0000
Subject: [PATCH 56/63] fix: do not cut escaped text in the middle of an escape
 sequence

---
 src/json/mcp_json_utils.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/json/mcp_json_utils.c b/src/json/mcp_json_utils.c
index 2e6153c..bcd6015 100644
--- a/src/json/mcp_json_utils.c
+++ b/src/json/mcp_json_utils.c
@@ -21,13 +21,8 @@ static inline bool write_safe(char* output, size_t output_size, size_t* out_idx,
         if (*out_idx + len < output_size) {
             memcpy(output + *out_idx, str, len);
         } else if (*out_idx < output_size) {
-            // Write partial if possible, but indicate truncation by returning false later
-            size_t remaining_space = output_size - *out_idx -1; // Leave space for null term
-            if (remaining_space > 0) {
-                memcpy(output + *out_idx, str, remaining_space);
-            }
-            // Ensure null termination even if truncated
-            output[output_size - 1] = '\0';
+            // Truncated: end the text here rather than in the middle of an escape sequence
+            output[*out_idx] = '\0';
         }
         // If output_size is 0 or 1, we can't write anything meaningful + null term
     }
-- 
2.43.0


From ab3cfbf0d3425928beea676645bdcd6afa2419c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:03 +0000
Subject: [PATCH 57/63] fix: complete WebSocket messages whose last fragment is
 empty

The client skipped empty fragments altogether. A message that ended with
one was never delivered and the next message was appended to it.
---
 src/transport/mcp_websocket_client_message.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_websocket_client_message.c b/src/transport/mcp_websocket_client_message.c
index fb695bd..afb6aa5 100644
--- a/src/transport/mcp_websocket_client_message.c
+++ b/src/transport/mcp_websocket_client_message.c
@@ -281,7 +281,7 @@ static int ws_client_process_complete_message(ws_client_data_t* data) {
 
 // Handle received WebSocket data
 int ws_client_handle_received_data(ws_client_data_t* data, void* in, size_t len, bool is_final) {
-    if (!data || !in || len == 0) {
+    if (!data || (!in && len > 0)) {
         return -1;
     }
 
@@ -295,9 +295,11 @@ int ws_client_handle_received_data(ws_client_data_t* data, void* in, size_t len,
         }
     }
 
-    // Append data to buffer
-    memcpy(data->receive_buffer + data->receive_buffer_used, in, len);
-    data->receive_buffer_used += len;
+    // Append data to buffer, the last fragment of a message may be empty
+    if (len > 0) {
+        memcpy(data->receive_buffer + data->receive_buffer_used, in, len);
+        data->receive_buffer_used += len;
+    }
 
     // Process complete message if this is the final fragment
     if (is_final) {
-- 
2.43.0


From c4c8274592f1d0706ff061b81a7872d14a3d3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:03 +0000
Subject: [PATCH 58/63] fix: forget half a WebSocket message when its
 connection is lost

The rest of the message never comes. The first message of the next
connection was appended to it and could not be parsed.
---
 src/transport/mcp_websocket_client_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport/mcp_websocket_client_transport.c b/src/transport/mcp_websocket_client_transport.c
index 3e659b2..65aed8f 100644
--- a/src/transport/mcp_websocket_client_transport.c
+++ b/src/transport/mcp_websocket_client_transport.c
@@ -100,6 +100,9 @@ static int ws_client_callback(struct lws* wsi, enum lws_callback_reasons reason,
             data->state = WS_CLIENT_STATE_CONNECTED;
             data->reconnect_attempts = 0;
             
+            // Nothing of a message cut off by the previous connection is left
+            data->receive_buffer_used = 0;
+
             // Reset monitoring state
             data->ping_in_progress = false;
             data->missed_pongs = 0;
-- 
2.43.0


From f2ce43b53886a5dfa796bc05c40d90b23604e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:03 +0000
Subject: [PATCH 59/63] fix: keep the shared WebSocket send buffer locked until
 it is sent

The lock was released before the buffer was filled. Two threads that sent
at the same time sent the same message twice or a mixture of both.
---
 src/transport/mcp_websocket_client_message.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_websocket_client_message.c b/src/transport/mcp_websocket_client_message.c
index afb6aa5..0ce187c 100644
--- a/src/transport/mcp_websocket_client_message.c
+++ b/src/transport/mcp_websocket_client_message.c
@@ -350,8 +350,9 @@ int ws_client_send_buffer_optimized(ws_client_data_t* data, const void* buffer,
             buf = data->reusable_send_buffer;
             using_reusable_buffer = true;
             data->buffer_reuses++;
+        } else {
+            mcp_mutex_unlock(data->send_buffer_mutex);
         }
-        mcp_mutex_unlock(data->send_buffer_mutex);
     }
 
     if (!buf && data->send_buffer_pool && size + LWS_PRE <= WS_CLIENT_REUSABLE_BUFFER_SIZE + LWS_PRE) {
@@ -436,8 +437,8 @@ int ws_client_send_buffer_optimized(ws_client_data_t* data, const void* buffer,
 
     // Clean up buffer based on allocation type
     if (using_reusable_buffer) {
-        // Reusable buffer - no cleanup needed, just unlock if we had locked
-        // (already unlocked above)
+        // Reusable buffer - others may use it now
+        mcp_mutex_unlock(data->send_buffer_mutex);
     } else if (using_pool_buffer) {
         // Return buffer to pool
         mcp_buffer_pool_release(data->send_buffer_pool, buf);
-- 
2.43.0


From 35e8b4f1238651fc570df09d9b19daa7f0c2a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:03 +0000
Subject: [PATCH 60/63] fix: never send on a WebSocket connection that is gone

A caller could write to a connection the event thread was closing. When
two attempts to connect succeeded, the end of one made the client forget
the other.
---
 .../mcp_websocket_client_connection.c         |  5 ++++
 src/transport/mcp_websocket_client_message.c  |  6 +++--
 .../mcp_websocket_client_transport.c          | 26 ++++++++++++++++---
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/transport/mcp_websocket_client_connection.c b/src/transport/mcp_websocket_client_connection.c
index 5902c52..57e893f 100644
--- a/src/transport/mcp_websocket_client_connection.c
+++ b/src/transport/mcp_websocket_client_connection.c
@@ -75,6 +75,11 @@ int ws_client_connect(ws_client_data_t* data) {
 
     // Update connection state
     mcp_mutex_lock(data->connection_mutex);
+    if (data->state == WS_CLIENT_STATE_CONNECTED) {
+        // Somebody else has connected meanwhile
+        mcp_mutex_unlock(data->connection_mutex);
+        return 0;
+    }
     data->state = WS_CLIENT_STATE_CONNECTING;
     mcp_mutex_unlock(data->connection_mutex);
 
diff --git a/src/transport/mcp_websocket_client_message.c b/src/transport/mcp_websocket_client_message.c
index 0ce187c..8503772 100644
--- a/src/transport/mcp_websocket_client_message.c
+++ b/src/transport/mcp_websocket_client_message.c
@@ -432,8 +432,10 @@ int ws_client_send_buffer_optimized(ws_client_data_t* data, const void* buffer,
         }
     }
 
-    // Send the message directly
-    int result = lws_write(data->wsi, buf + LWS_PRE, size, LWS_WRITE_TEXT);
+    // Send the message directly, the connection must not go away meanwhile
+    mcp_mutex_lock(data->connection_mutex);
+    int result = data->wsi ? lws_write(data->wsi, buf + LWS_PRE, size, LWS_WRITE_TEXT) : -1;
+    mcp_mutex_unlock(data->connection_mutex);
 
     // Clean up buffer based on allocation type
     if (using_reusable_buffer) {
diff --git a/src/transport/mcp_websocket_client_transport.c b/src/transport/mcp_websocket_client_transport.c
index 65aed8f..8febf91 100644
--- a/src/transport/mcp_websocket_client_transport.c
+++ b/src/transport/mcp_websocket_client_transport.c
@@ -93,10 +93,15 @@ static int ws_client_callback(struct lws* wsi, enum lws_callback_reasons reason,
             double connection_time = difftime(now, data->last_activity_time);
 
             mcp_log_info("WebSocket client connection established in %.1f seconds", connection_time);
-            data->wsi = wsi;
 
             // Update connection state
             mcp_mutex_lock(data->connection_mutex);
+            if (data->wsi != NULL) {
+                // Another attempt was faster, one connection is enough
+                mcp_mutex_unlock(data->connection_mutex);
+                return -1;
+            }
+            data->wsi = wsi;
             data->state = WS_CLIENT_STATE_CONNECTED;
             data->reconnect_attempts = 0;
             
@@ -128,10 +133,13 @@ static int ws_client_callback(struct lws* wsi, enum lws_callback_reasons reason,
                         data->config.host, data->config.port,
                         data->config.path ? data->config.path : "/");
 
-            data->wsi = NULL;
-
             // Update connection state
             mcp_mutex_lock(data->connection_mutex);
+            if (data->wsi != NULL) {
+                // A surplus attempt failed, the client is connected
+                mcp_mutex_unlock(data->connection_mutex);
+                break;
+            }
             data->state = WS_CLIENT_STATE_ERROR;
             mcp_cond_signal(data->connection_cond);
             mcp_mutex_unlock(data->connection_mutex);
@@ -146,7 +154,17 @@ static int ws_client_callback(struct lws* wsi, enum lws_callback_reasons reason,
         case LWS_CALLBACK_CLIENT_CLOSED: {
             // Handle connection closure
             mcp_log_info("WebSocket client connection closed");
-            data->wsi = NULL;
+            mcp_mutex_lock(data->connection_mutex);
+            bool is_current = (data->wsi == wsi);
+            if (is_current) {
+                data->wsi = NULL;
+            }
+            mcp_mutex_unlock(data->connection_mutex);
+
+            // A surplus connection carries no messages
+            if (!is_current) {
+                break;
+            }
 
             // Handle synchronous response mode
             mcp_mutex_lock(data->response_mutex);
-- 
2.43.0


From c4c6936a07a943135ca0dcdf72d91a4d6aabcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:03 +0000
Subject: [PATCH 61/63] fix: report a WebSocket connection made just as the
 wait timed out

The result of the last timed wait was returned even though the client was
connected by then, so that the call failed for nothing.
---
 src/transport/mcp_websocket_client_connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/mcp_websocket_client_connection.c b/src/transport/mcp_websocket_client_connection.c
index 57e893f..f4a6ccd 100644
--- a/src/transport/mcp_websocket_client_connection.c
+++ b/src/transport/mcp_websocket_client_connection.c
@@ -480,6 +480,7 @@ int ws_client_wait_for_connection(ws_client_data_t* data, uint32_t timeout_ms) {
         result = -1;
     } else {
         mcp_log_ws_debug("successfully connected");
+        result = 0;
     }
 
     mcp_mutex_unlock(data->connection_mutex);
-- 
2.43.0


From 5b537aaaf873540869a1b2867126fa674f9088e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:04 +0000
Subject: [PATCH 62/63] fix: do not glue parts of WebSocket messages there is
 no memory for

When a fragment or a complete message could not be stored for want of
memory, the parts already received were kept.  The next fragment or
message was appended to them, and a response with a piece missing could
be returned to the caller.
---
 src/transport/mcp_websocket_client_message.c   | 2 ++
 src/transport/mcp_websocket_client_transport.c | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_websocket_client_message.c b/src/transport/mcp_websocket_client_message.c
index 8503772..b431e42 100644
--- a/src/transport/mcp_websocket_client_message.c
+++ b/src/transport/mcp_websocket_client_message.c
@@ -179,6 +179,7 @@ static int ws_client_process_complete_message(ws_client_data_t* data) {
     // Ensure buffer is null-terminated
     if (data->receive_buffer_used >= data->receive_buffer_len) {
         if (ws_client_resize_receive_buffer(data, data->receive_buffer_used + 1) != 0) {
+            data->receive_buffer_used = 0;
             return -1;
         }
     }
@@ -230,6 +231,7 @@ static int ws_client_process_complete_message(ws_client_data_t* data) {
             }
 
             mcp_mutex_unlock(data->response_mutex);
+            data->receive_buffer_used = 0;
             return -1;
         }
 
diff --git a/src/transport/mcp_websocket_client_transport.c b/src/transport/mcp_websocket_client_transport.c
index 8febf91..5ded421 100644
--- a/src/transport/mcp_websocket_client_transport.c
+++ b/src/transport/mcp_websocket_client_transport.c
@@ -211,7 +211,10 @@ static int ws_client_callback(struct lws* wsi, enum lws_callback_reasons reason,
 
         case LWS_CALLBACK_CLIENT_RECEIVE: {
             mcp_log_debug("Receive data from server");
-            ws_client_handle_received_data(data, in, len, lws_is_final_fragment(wsi));
+            if (ws_client_handle_received_data(data, in, len, lws_is_final_fragment(wsi)) != 0) {
+                // Part of a message is missing, close the connection
+                return -1;
+            }
             break;
         }
 
-- 
2.43.0


From 2dc9a0385d915b886a2c19cddd4ba135b9299342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:16 +0000
Subject: [PATCH 63/63] fix: use libwebsockets from one thread at a time in the
 WebSocket client

Requests and connection attempts were made by the calling thread while the
event thread was inside the library, which is not thread-safe and aborts.
---
 .../internal/websocket_client_internal.h      |  4 ++
 .../mcp_websocket_client_connection.c         | 41 ++++++++++++++++++-
 src/transport/mcp_websocket_client_message.c  |  4 +-
 .../mcp_websocket_client_transport.c          | 12 ++++++
 4 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/transport/internal/websocket_client_internal.h b/src/transport/internal/websocket_client_internal.h
index 311e0be..9cf01f1 100644
--- a/src/transport/internal/websocket_client_internal.h
+++ b/src/transport/internal/websocket_client_internal.h
@@ -45,6 +45,8 @@ typedef struct {
     bool reconnect;                 // Whether to reconnect on disconnect
     mcp_mutex_t* connection_mutex;  // Mutex for connection state
     mcp_cond_t* connection_cond;    // Condition variable for connection state
+    mcp_mutex_t* service_mutex;     // Held by the one thread using libwebsockets
+    int service_waiters;            // Threads that want to use libwebsockets
 
     // Reconnection parameters
     int reconnect_attempts;         // Number of reconnection attempts
@@ -93,6 +95,8 @@ bool ws_client_is_ascii_only(const void* buffer, size_t size);
 int ws_client_send_buffer_optimized(ws_client_data_t* data, const void* buffer, size_t size, bool skip_utf8_validation);
 
 // Connection management functions
+void ws_client_service_lock(ws_client_data_t* data);
+void ws_client_service_unlock(ws_client_data_t* data);
 int ws_client_connect(ws_client_data_t* data);
 int ws_client_ensure_connected(ws_client_data_t* data, uint32_t timeout_ms);
 int ws_client_wait_for_connection(ws_client_data_t* data, uint32_t timeout_ms);
diff --git a/src/transport/mcp_websocket_client_connection.c b/src/transport/mcp_websocket_client_connection.c
index f4a6ccd..c59de67 100644
--- a/src/transport/mcp_websocket_client_connection.c
+++ b/src/transport/mcp_websocket_client_connection.c
@@ -67,6 +67,25 @@ int ws_client_ensure_connected(ws_client_data_t* data, uint32_t timeout_ms) {
     return 0;
 }
 
+// libwebsockets must not be used by two threads at a time: take it from the event thread
+void ws_client_service_lock(ws_client_data_t* data) {
+    mcp_mutex_lock(data->connection_mutex);
+    data->service_waiters++;
+    mcp_mutex_unlock(data->connection_mutex);
+
+    // Make the event thread leave its service call
+    lws_cancel_service(data->context);
+    mcp_mutex_lock(data->service_mutex);
+}
+
+void ws_client_service_unlock(ws_client_data_t* data) {
+    mcp_mutex_unlock(data->service_mutex);
+
+    mcp_mutex_lock(data->connection_mutex);
+    data->service_waiters--;
+    mcp_mutex_unlock(data->connection_mutex);
+}
+
 // Connect to the WebSocket server
 int ws_client_connect(ws_client_data_t* data) {
     if (!data || !data->context || !data->connection_mutex) {
@@ -124,7 +143,10 @@ int ws_client_connect(ws_client_data_t* data) {
                     connect_info.path, connect_info.ssl_connection);
 
     // Attempt connection
-    if (!lws_client_connect_via_info(&connect_info)) {
+    ws_client_service_lock(data);
+    struct lws* new_wsi = lws_client_connect_via_info(&connect_info);
+    ws_client_service_unlock(data);
+    if (!new_wsi) {
         mcp_log_ws_error("failed to connect to server");
 
         mcp_mutex_lock(data->connection_mutex);
@@ -511,7 +533,18 @@ void* ws_client_event_thread(void* arg) {
         // Service the WebSocket context with adaptive timeout
         // Use longer timeouts when inactive to reduce CPU usage
         if (data->context) {
+            // Let threads that wait for libwebsockets go first
+            mcp_mutex_lock(data->connection_mutex);
+            bool give_way = data->service_waiters > 0;
+            mcp_mutex_unlock(data->connection_mutex);
+            if (give_way) {
+                mcp_sleep_ms(1);
+                continue;
+            }
+
+            mcp_mutex_lock(data->service_mutex);
             lws_service(data->context, service_timeout_ms);
+            mcp_mutex_unlock(data->service_mutex);
         } else {
             // If context is invalid, sleep briefly to avoid CPU spinning
             mcp_sleep_ms(100);
@@ -568,7 +601,11 @@ void* ws_client_event_thread(void* arg) {
 
         // Request ping if needed
         if (need_ping_check && data->wsi) {
-            lws_callback_on_writable(data->wsi);
+            ws_client_service_lock(data);
+            if (data->wsi) {
+                lws_callback_on_writable(data->wsi);
+            }
+            ws_client_service_unlock(data);
         }
     }
 
diff --git a/src/transport/mcp_websocket_client_message.c b/src/transport/mcp_websocket_client_message.c
index b431e42..f2bf74e 100644
--- a/src/transport/mcp_websocket_client_message.c
+++ b/src/transport/mcp_websocket_client_message.c
@@ -435,9 +435,9 @@ int ws_client_send_buffer_optimized(ws_client_data_t* data, const void* buffer,
     }
 
     // Send the message directly, the connection must not go away meanwhile
-    mcp_mutex_lock(data->connection_mutex);
+    ws_client_service_lock(data);
     int result = data->wsi ? lws_write(data->wsi, buf + LWS_PRE, size, LWS_WRITE_TEXT) : -1;
-    mcp_mutex_unlock(data->connection_mutex);
+    ws_client_service_unlock(data);
 
     // Clean up buffer based on allocation type
     if (using_reusable_buffer) {
diff --git a/src/transport/mcp_websocket_client_transport.c b/src/transport/mcp_websocket_client_transport.c
index 5ded421..9f9edfe 100644
--- a/src/transport/mcp_websocket_client_transport.c
+++ b/src/transport/mcp_websocket_client_transport.c
@@ -427,6 +427,11 @@ static void ws_client_cleanup_resources(ws_client_data_t* data) {
         mcp_mutex_destroy(conn_mutex);
     }
 
+    if (data->service_mutex) {
+        mcp_mutex_destroy(data->service_mutex);
+        data->service_mutex = NULL;
+    }
+
     // Response-related synchronization primitives
     mcp_cond_t* resp_cond = data->response_cond;
     mcp_mutex_t* resp_mutex = data->response_mutex;
@@ -793,6 +798,13 @@ static int ws_client_transport_start(
         return -1;
     }
 
+    data->service_mutex = mcp_mutex_create();
+    if (!data->service_mutex) {
+        mcp_log_error("Failed to create WebSocket client service mutex");
+        ws_client_cleanup_resources(data);
+        return -1;
+    }
+
     // Initialize reconnection parameters
     data->reconnect_attempts = 0;
     data->reconnect_delay_ms = WS_RECONNECT_DELAY_MS;
-- 
2.43.0

