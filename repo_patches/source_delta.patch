From d3a239b62865489e11a7107b9d42d2359981aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 01/27] fix: lightweight_barrier must not fail spuriously

compare_exchange_weak is allowed to fail although the expected value was
found. wait() then dereferenced a null waiter, complete() lost the
completion. Use the strong variant as neither call is within a loop.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From dabc98ac673c8569f14b6b00452192407a293ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 02/27] fix: group::wait must not miss operations submitted
 after an earlier completion

The barrier of a consumable is one-shot: once the count of outstanding
operations had dropped to zero, operations added to the same consumable
later were not waited for, neither were operations which raced with the
exchange of the consumable by a concurrent wait. A wait through a chain of
consumables also took up to the given timeout per element and the chain kept
growing. Count the resources by generation instead, a wait ends as soon as
all generations up to the one current at its begin are used up.
---
 src/naive/naive_consumable.cpp | 63 ++++++++++++++++++----------------
 src/naive/naive_consumable.h   | 38 +++++++++++---------
 src/naive/naive_group.cpp      | 22 ++----------
 src/naive/naive_operations.cpp |  3 +-
 src/naive/naive_operations.h   |  4 ++-
 5 files changed, 63 insertions(+), 67 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..adb278e 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -26,52 +26,55 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
-consumable::consumable(size_t resources, const consumable_ptr& preceeding)
-  : m_preceeding(preceeding)
-  , m_resources(resources)
-{}
+consumable::consumable(size_t resources)
+  : m_generation(0)
+{
+    if (resources > 0) {
+        m_resources[m_generation] = resources;
+    }
+}
 
-void
+size_t
 consumable::add_resource()
 {
-    m_resources.fetch_add(size_t(1));
+    std::lock_guard<std::mutex> lock(m_CS);
+    ++m_resources[m_generation];
+    return m_generation;
 }
 
 void
-consumable::consume_resource()
+consumable::consume_resource(size_t generation)
 {
+    std::lock_guard<std::mutex> lock(m_CS);
+    const auto it = m_resources.find(generation);
     // brief test to verify resources will never get negative
-    XDISPATCH_ASSERT(m_resources.load() > 0);
-    // when we consume the last resource, i.e.
-    // the count is one at the time of this call
-    // we can complete the barrier
-    if (1 == m_resources.fetch_sub(size_t(1))) {
-        m_barrier.complete();
+    XDISPATCH_ASSERT(it != m_resources.end());
+    // when we consume the last resource of a generation somebody
+    // may be able to proceed
+    if (0 == --it->second) {
+        m_resources.erase(it);
+        m_cond.notify_all();
     }
 }
 
-// Recursion is no risk because infinite recursion is guarded by checking
-// preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
 {
-    // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
-        } else {
-            return false;
-        }
-    }
-    // if no resources have been available or consumed
-    // the barrier will never be completed but the consumable
-    // can be considered as fully satisfied still
-    if (0 == m_resources.load()) {
+    std::unique_lock<std::mutex> lock(m_CS);
+    // whatever is added from now on does not concern us
+    const auto last = m_generation++;
+    const auto consumed = [this, last] {
+        return m_resources.empty() || m_resources.begin()->first > last;
+    };
+    if (consumed()) {
         return true;
     }
     ithreadpool::block_scope blocked;
-    const auto ret = m_barrier.wait(timeout);
-    return ret;
+    if (std::chrono::milliseconds(-1) == timeout) {
+        m_cond.wait(lock, consumed);
+        return true;
+    }
+    return m_cond.wait_for(lock, timeout, consumed);
 }
 
 } // namespace naive
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..aa2ff66 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -22,7 +22,11 @@
 #ifndef XDISPATCH_NAIVE_CONSUMABLE_H_
 #define XDISPATCH_NAIVE_CONSUMABLE_H_
 
-#include "xdispatch/impl/lightweight_barrier.h"
+#include "xdispatch/dispatch_decl.h"
+
+#include <condition_variable>
+#include <map>
+#include <mutex>
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
@@ -37,8 +41,9 @@ using consumable_ptr = std::shared_ptr<consumable>;
     way in that a caller will get unblocked when no resources
     are left, not when a resource is left as with a semaphore.
 
-    Consumables can be daisy-chained to model a dependent list
-    of resources that need to be drained up before proceeding.
+    Every wait only covers the resources which had been added before
+    it was started; resources added later belong to a new generation and
+    do not prolong it.
  */
 class consumable
 {
@@ -48,27 +53,25 @@ public:
 
         @param resources The initial number of resources
                     that can be consumed from the very beginning
-        @param preceeding A preceeding consumable that needs to be
-                    freed up as well before this consumable
-                    is considered as fully consumed
      */
-    explicit consumable(size_t resources = 0,
-                        const consumable_ptr& preceeding = consumable_ptr());
+    explicit consumable(size_t resources = 0);
 
     /**
         @brief Adds an additional free resource to the consumable
 
-        If the consumable had already been fully consumed by the
-        time this is called, this will have no effect and the
-        consumable remain fully consumed.
+        @return the generation the resource belongs to, to be passed
+                when consuming the resource
      */
-    void add_resource();
+    size_t add_resource();
 
     /**
         @brief Consumes a resource removing it from the list of
                available resources
+
+        @param generation The generation of the resource as returned
+                by add_resource()
      */
-    void consume_resource();
+    void consume_resource(size_t generation = 0);
 
     /**
         @brief Blocks until all resources to be consumed or the
@@ -83,9 +86,12 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
-    std::atomic<size_t> m_resources;
-    lightweight_barrier m_barrier;
+    std::mutex m_CS;
+    std::condition_variable m_cond;
+    // the generation newly added resources belong to
+    size_t m_generation;
+    // remaining resources by generation, never holds an empty generation
+    std::map<size_t, size_t> m_resources;
 };
 
 } // namespace naive
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..93d5dd5 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -46,28 +46,12 @@ public:
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
-        q->async(std::make_shared<consuming_operation>(op, c));
+        q->async(std::make_shared<consuming_operation>(op, m_consumable));
     }
 
     bool wait(std::chrono::milliseconds timeout) final
     {
-        // swap the previous consumable with a new one that all operations
-        // submitted after this call will be added to and which waits on the
-        // previous consumable in a chain. Use a compare/exchange and retry
-        // whenever the consumable was already swapped by another thread
-        consumable_ptr old_c;
-        consumable_ptr new_c;
-        do {
-            old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
-        } while (
-          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
-        XDISPATCH_ASSERT(old_c);
-        XDISPATCH_ASSERT(new_c);
-        return old_c->wait_for_consumed(timeout);
+        return m_consumable->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
         // within
@@ -97,7 +81,7 @@ public:
 private:
     const ithreadpool_ptr m_pool;
     const backend_type m_backend;
-    consumable_ptr m_consumable;
+    const consumable_ptr m_consumable;
 };
 
 igroup_impl_ptr
diff --git a/src/naive/naive_operations.cpp b/src/naive/naive_operations.cpp
index 342babf..cbff8e6 100644
--- a/src/naive/naive_operations.cpp
+++ b/src/naive/naive_operations.cpp
@@ -96,6 +96,7 @@ consuming_operation::consuming_operation(const operation_ptr& op,
                                          const consumable_ptr& consumable)
   : m_op(op)
   , m_consumable(consumable)
+  , m_generation(consumable ? consumable->add_resource() : 0)
 {}
 
 void
@@ -104,7 +105,7 @@ consuming_operation::operator()()
     execute_operation_on_this_thread(*m_op);
 
     if (m_consumable) {
-        m_consumable->consume_resource();
+        m_consumable->consume_resource(m_generation);
     }
 }
 
diff --git a/src/naive/naive_operations.h b/src/naive/naive_operations.h
index 676ff3f..ca364eb 100644
--- a/src/naive/naive_operations.h
+++ b/src/naive/naive_operations.h
@@ -100,7 +100,8 @@ class consuming_operation : public operation
 public:
     /**
        @param op The operation to be executed
-       @param consumable The consumable to notify when done
+       @param consumable The consumable to add a resource to
+                    and to notify when done
      */
     consuming_operation(const operation_ptr& op,
                         const consumable_ptr& consumable);
@@ -113,6 +114,7 @@ public:
 private:
     const operation_ptr m_op;
     const consumable_ptr m_consumable;
+    const size_t m_generation;
 };
 
 } // namespace naive
-- 
2.43.0


From c3bf8a1d5124107074330a0c60067ec288338139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 03/27] fix: group::notify must wait without limit

milliseconds::max() overflows when it is converted to a point in time so
the wait returned at once and the notification was sent too early.
---
 src/naive/naive_group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 93d5dd5..b03377c 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -68,7 +68,7 @@ public:
             // note: wait(..) will already notify the threadpool that
             //       we are blocking one of its threads through our internal
             //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            this_ptr->wait(std::chrono::milliseconds(-1));
             q->async(op);
         });
 
-- 
2.43.0


From 6183b3e7723bfbdbb5a645b52e2e722eec4d6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 04/27] fix: timer must not be used after its loop has been
 told to proceed

The barrier was completed while the cancelable scope was still open. The
loop could end and destroy the timer before the scope was left.
---
 src/naive/naive_timer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..32c05b1 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -104,10 +104,14 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
+                    // the cancelable must be left before, the timer may be
+                    // destroyed as soon as the barrier is completed
                     barrier.complete();
                 }));
                 barrier.wait();
-- 
2.43.0


From 4b77b0e59b07c8f0edee2509e261f6a359e68f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 05/27] fix: waitable_queue must not destroy operations while
 locked

An operation which uses the queue when it is destroyed, e.g. as it holds the
last reference to something submitting to it, deadlocked.
---
 src/waitable_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..879bd50 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,8 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // must be released unlocked, its destructor may use this queue
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From ec990b2e6e6547a1f2244be2d2b62d299adf988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 06/27] fix: waitable_queue::after must release its timer and
 operation

The handler kept the timer alive and the timer its handler, so the operation
and the queue were never destroyed. Use the delayed_operation which breaks
the cycle like the other queues do.
---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 879bd50..786a5b0 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -161,11 +161,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From 18fbe9894fac863869e7f6887bfa3a09b2c12a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/27] fix: waitable_queue must declare blocked pool threads

Workers of a parallel inner queue wait for their turn and threads waiting for
an operation block, both without telling the pool. With all workers occupied
the operation everybody waits for could not proceed.
---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 786a5b0..d4db0df 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -29,6 +29,7 @@
 #include "xdispatch/impl/itimer_impl.h"
 #include "trace_utils.h"
 #include "naive/naive_operations.h"
+#include "xdispatch/backend_naive_ithreadpool.h"
 
 __XDISPATCH_USE_NAMESPACE
 
@@ -50,6 +51,7 @@ public:
         std::unique_lock<std::mutex> lock(m_CS);
         // wait for parallel executions to complete
         if (m_active) {
+            naive::ithreadpool::block_scope blocked;
             m_cond.wait(lock, [this] { return !m_active; });
         }
         // we are the active worker now
@@ -84,6 +86,7 @@ public:
             // we can just wait for it to complete and will not deadlock
             if (m_active) {
                 XDISPATCH_TRACE() << "Waiting for active operation";
+                naive::ithreadpool::block_scope blocked;
                 m_cond.wait(lock, [this] { return !m_active; });
             }
             // there is some chance nothing was queued to begin with
-- 
2.43.0


From 574f4cfb4022843751849fced95f9356c1db9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 08/27] fix: threadpool must account for a worker before
 starting it

A new worker could idle before it was counted as active, which made the
assertion in schedule() terminate the process. The counters are read one after
the other as well, so they cannot be expected to be consistent. Concurrent
submissions could also exceed the limit of threads.
---
 src/naive/naive_threadpool.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..853c36f 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -307,30 +307,35 @@ void
 threadpool::schedule()
 {
     // lets check if there is an idle thread first
-    const int active_threads =
+    // note: both counters change concurrently so they cannot be
+    //       expected to be consistent with each other
+    int active_threads =
       m_data->m_active_threads.load(std::memory_order_consume);
     const int idle_threads =
       m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
         XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
           << "Woke an idle thread";
+        return;
     }
-    // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
-        operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
-
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
-          << "Spawned thread " << thread->get_id()
-          << " (max=" << m_data->m_max_threads << ")";
+    // check if we are good to create another thread, reserve
+    // it before it is started so that others do not create it again
+    while (active_threads <
+           m_data->m_max_threads.load(std::memory_order_consume)) {
+        if (m_data->m_active_threads.compare_exchange_weak(
+              active_threads, active_threads + 1, std::memory_order_acq_rel)) {
+            auto thread = std::make_shared<worker>(m_data);
+            operation_queue_manager::instance().attach(thread);
+
+            XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
+              << "Spawned thread " << thread->get_id()
+              << " (max=" << m_data->m_max_threads << ")";
+            return;
+        }
     }
     // all threads busy and processor allocation reached, wait
     // and the operation will be picked up as soon as a thread is available
-- 
2.43.0


From 0a8af609edd1ae7ef759a8ab187f1cedf13da9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 09/27] fix: threadpool must not leave operations to a worker
 that is already taken

---
 src/naive/naive_semaphore.cpp  |  6 ++++++
 src/naive/naive_semaphore.h    |  5 +++++
 src/naive/naive_threadpool.cpp | 37 +++++++++++++++++++++++-----------
 src/naive/naive_threadpool.h   |  2 +-
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/naive/naive_semaphore.cpp b/src/naive/naive_semaphore.cpp
index c221336..dd02f18 100644
--- a/src/naive/naive_semaphore.cpp
+++ b/src/naive/naive_semaphore.cpp
@@ -120,6 +120,12 @@ semaphore::wait_acquire(std::chrono::milliseconds timeout)
     return true;
 }
 
+bool
+semaphore::available() const
+{
+    return m_count.load(std::memory_order_seq_cst) > 0;
+}
+
 void
 semaphore::release(int count)
 {
diff --git a/src/naive/naive_semaphore.h b/src/naive/naive_semaphore.h
index 2480963..e31dd8a 100644
--- a/src/naive/naive_semaphore.h
+++ b/src/naive/naive_semaphore.h
@@ -74,6 +74,11 @@ public:
      */
     bool wait_acquire(std::chrono::milliseconds timeout);
 
+    /**
+        @return true if the count is greater than zero at the moment
+     */
+    bool available() const;
+
     /**
         @brief Releases the semaphore incrementing its count
 
diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 853c36f..5ebf61a 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -127,6 +127,8 @@ public:
           std::chrono::seconds(30);
 
         int last_label = -1;
+        // true until the first operation after starting or idling is picked
+        bool was_idle = true;
         while (!m_data->m_cancelled) {
             operation_ptr op;
             int label = -1;
@@ -157,6 +159,7 @@ public:
                       m_data->m_pool, idle_threads, active_threads)
                       << "Thread " << std::this_thread::get_id() << " idling";
 
+                    was_idle = true;
                     // wait up to a timeout for the counter to acquire, if the
                     // timeout is reached we end this thread again to free
                     // resources in the system
@@ -164,7 +167,7 @@ public:
                           skMaxSleepBeforeThreadExit)) {
                         // all good go pick the operation
                         m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
                     } else {
                         // end this thread it seems there is no work remaining
                         m_data->m_idle_threads.fetch_sub(
@@ -194,6 +197,16 @@ public:
                     }
                 }
 
+                // other operations may have been added in the meantime by
+                // somebody who saw us still idling and hence relied on us to
+                // execute them, make sure they do not need to wait for us
+                if (was_idle) {
+                    was_idle = false;
+                    if (m_data->m_operations_counter.available()) {
+                        threadpool::schedule(m_data);
+                    }
+                }
+
                 // search for the next operation starting with the highest
                 // priority
                 // Note: there has to be such operation as we acquired the
@@ -285,7 +298,7 @@ threadpool::execute(const operation_ptr& work, const queue_priority priority)
     if (enqueued) {
         m_data->m_operations_counter.release();
     }
-    schedule();
+    schedule(m_data);
 }
 
 ithreadpool_ptr
@@ -304,36 +317,36 @@ backend::global_threadpool()
 }
 
 void
-threadpool::schedule()
+threadpool::schedule(const data_ptr& data)
 {
     // lets check if there is an idle thread first
     // note: both counters change concurrently so they cannot be
     //       expected to be consistent with each other
     int active_threads =
-      m_data->m_active_threads.load(std::memory_order_consume);
+      data->m_active_threads.load(std::memory_order_consume);
     const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
+      data->m_idle_threads.load(std::memory_order_seq_cst);
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
-        XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
+        XDISPATCH_TP_TRACE(data->m_pool, active_threads, idle_threads)
           << "Woke an idle thread";
         return;
     }
     // check if we are good to create another thread, reserve
     // it before it is started so that others do not create it again
     while (active_threads <
-           m_data->m_max_threads.load(std::memory_order_consume)) {
-        if (m_data->m_active_threads.compare_exchange_weak(
+           data->m_max_threads.load(std::memory_order_consume)) {
+        if (data->m_active_threads.compare_exchange_weak(
               active_threads, active_threads + 1, std::memory_order_acq_rel)) {
-            auto thread = std::make_shared<worker>(m_data);
+            auto thread = std::make_shared<worker>(data);
             operation_queue_manager::instance().attach(thread);
 
-            XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
+            XDISPATCH_TP_TRACE(data->m_pool, active_threads + 1, idle_threads)
               << "Spawned thread " << thread->get_id()
-              << " (max=" << m_data->m_max_threads << ")";
+              << " (max=" << data->m_max_threads << ")";
             return;
         }
     }
@@ -351,7 +364,7 @@ threadpool::notify_thread_blocked()
     const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_TP_TRACE(this, active, idle)
       << "Increased threadcount to " << max_threads;
-    schedule();
+    schedule(m_data);
 }
 
 void
diff --git a/src/naive/naive_threadpool.h b/src/naive/naive_threadpool.h
index 3f624a6..eca2559 100644
--- a/src/naive/naive_threadpool.h
+++ b/src/naive/naive_threadpool.h
@@ -91,7 +91,7 @@ private:
     class data;
     using data_ptr = std::shared_ptr<data>;
 
-    void schedule();
+    static void schedule(const data_ptr& data);
 
     data_ptr m_data;
 };
-- 
2.43.0


From 39e43a920d08aa775cbce7d57967c597c856e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 10/27] fix: cancelable must allow parallel calls and
 concurrent cancellation

A call which was entered while another one was active got dropped and
the second of two concurrent cancellations returned while a call was
still active.
---
 include/xdispatch/impl/cancelable.h | 43 ++++++++++++----------------
 src/cancelable.cpp                  | 44 ++++++++++++++---------------
 src/naive/naive_socket_notifier.cpp |  1 +
 src/naive/naive_timer.cpp           |  1 +
 4 files changed, 41 insertions(+), 48 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..2b1fa60 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -22,7 +22,8 @@
 #ifndef XDISPATCH_CANCELABLE_H_
 #define XDISPATCH_CANCELABLE_H_
 
-#include <atomic>
+#include <condition_variable>
+#include <mutex>
 
 /**
  * @addtogroup xdispatch
@@ -30,7 +31,6 @@
  */
 
 #include "xdispatch/dispatch_decl.h"
-#include "xdispatch/impl/lightweight_barrier.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
 
@@ -40,31 +40,25 @@ __XDISPATCH_BEGIN_NAMESPACE
     Whenever the entity becomes active it should enter().
     If not cancelled this will return true in which case the
     entity can do its processing. Once done it must invoke
-    leave() to indicate it is not active anymore.
+    leave() to indicate it is not active anymore. An entity
+    can be active on several threads at the same time.
 
     Use disable() to cancel the entity.
 */
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as disabled so that it can no longer be entered
+       and waits until it is not active on any thread anymore.
+
+       When invoked recursively, i.e. while the entity is active on the
+       calling thread, the call will not wait.
     */
     void disable();
 
@@ -72,29 +66,28 @@ protected:
     friend class cancelable_scope;
 
     /**
-        Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        Notifies the entity that it is about to be called
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true unless the entity has been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that the call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
-    // barrier to ensure defined cancellation
-    lightweight_barrier m_barrier;
+    std::mutex m_CS;
+    std::condition_variable m_cond;
+    // false as soon as the entity was disabled
+    bool m_enabled;
+    // the number of calls which are active right now
+    int m_active;
 };
 
 /**
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..93c41e6 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -22,52 +22,50 @@
 #include "xdispatch/impl/cancelable.h"
 #include "xdispatch_internal.h"
 
-#include <cstdlib>
 #include <set>
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+// everything entered by this thread, may contain entities several times
+static thread_local std::multiset<cancelable*> current_c;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_CS()
+  , m_cond()
+  , m_enabled(true)
+  , m_active(0)
 {}
 
 void
 cancelable::disable()
 {
-    if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
-    } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+    std::unique_lock<std::mutex> lock(m_CS);
+    m_enabled = false;
+    if (current_c.find(this) == current_c.end()) {
+        // no recursion, make sure nothing is running anymore
+        m_cond.wait(lock, [this] { return 0 == m_active; });
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
+    std::lock_guard<std::mutex> lock(m_CS);
+    if (!m_enabled) {
+        return false;
     }
-    // disabled
-    return false;
+    ++m_active;
+    current_c.insert(this);
+    return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
-        m_barrier.complete();
+    std::lock_guard<std::mutex> lock(m_CS);
+    current_c.erase(current_c.find(this));
+    if (0 == --m_active) {
+        m_cond.notify_all();
     }
 }
 
diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..55597c4 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -22,6 +22,7 @@
 #include "xdispatch/impl/isocket_notifier_impl.h"
 #include "xdispatch/impl/iqueue_impl.h"
 #include "xdispatch/impl/cancelable.h"
+#include "xdispatch/impl/lightweight_barrier.h"
 
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 32c05b1..4ffd83f 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -21,6 +21,7 @@
 
 #include "xdispatch/impl/itimer_impl.h"
 #include "xdispatch/impl/cancelable.h"
+#include "xdispatch/impl/lightweight_barrier.h"
 #include "xdispatch/impl/iqueue_impl.h"
 
 #include "naive_threadpool.h"
-- 
2.43.0


From 82080d9c985b6d289d29d64a264c69ebaabfa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 11/27] fix: timer must not fire twice per interval after it
 was suspended and resumed

A worker still waiting when the timer was suspended continued next to
the one started by the following resume. Suspending a cancelled timer or
resuming it has no effect anymore.
---
 src/naive/naive_timer.cpp | 65 +++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 4ffd83f..35371d6 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -27,6 +27,8 @@
 #include "naive_threadpool.h"
 #include "naive_inverse_lockguard.h"
 
+#include <condition_variable>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -45,6 +47,8 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_worker_cookie(0)
+      , m_firing(false)
       , m_cancelable()
     {}
 
@@ -79,45 +83,63 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_running < 0) {
+            // cancelled so do not proceed
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
         const auto this_ptr = shared_from_this();
+        // any worker kicked off before a previous suspend will know
+        // by the changed cookie that it should end
+        const auto cookie = ++m_worker_cookie;
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, delay, cookie] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            // a previous worker may still be waiting for its handler
+            this_ptr->m_cond.wait(lock, [&] { return !this_ptr->m_firing; });
+
+            while (this_ptr->m_running > 0 &&
+                   cookie == this_ptr->m_worker_cookie) {
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
                 auto& cancelable = this_ptr->m_cancelable;
 
-                inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
-
-                lightweight_barrier barrier;
-                queue->async(make_operation([handler, &barrier, &cancelable] {
-                    {
-                        cancelable_scope scope(cancelable);
-                        if (scope) {
-                            execute_operation_on_this_thread(*handler);
-                        }
-                    }
-                    // the cancelable must be left before, the timer may be
-                    // destroyed as soon as the barrier is completed
-                    barrier.complete();
-                }));
-                barrier.wait();
+                this_ptr->m_firing = true;
+                {
+                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+
+                    lightweight_barrier barrier;
+                    queue->async(
+                      make_operation([handler, &barrier, &cancelable] {
+                          {
+                              cancelable_scope scope(cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(*handler);
+                              }
+                          }
+                          // the cancelable must be left before, the timer may
+                          // be destroyed as soon as the barrier is completed
+                          barrier.complete();
+                      }));
+                    barrier.wait();
+                }
+                this_ptr->m_firing = false;
+                this_ptr->m_cond.notify_all();
 
                 if (interval.count() > 0) {
+                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
                     std::this_thread::sleep_for(interval);
                 } else {
                     // singleshot timer
@@ -133,14 +155,16 @@ public:
     void suspend() override
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        --m_running;
+        if (m_running > 0) {
+            --m_running;
+        }
     }
 
     void cancel() override
     {
         {
             std::lock_guard<std::mutex> lock(m_CS);
-            m_running = 0;
+            m_running = -1;
         }
         m_cancelable.disable();
     }
@@ -150,11 +174,14 @@ public:
 private:
     const backend_type m_backend;
     std::mutex m_CS;
+    std::condition_variable m_cond;
     std::chrono::milliseconds m_interval;
     iqueue_impl_ptr m_queue;
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    int m_worker_cookie;
+    bool m_firing;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From 300237255657e2a19f56031f742c3c6e52b3ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 12/27] fix: socket notifier must stop when its socket was
 closed

select() returns -1 and reports EBADF through errno, comparing its result
made the notifier spin on the closed socket forever.
---
 src/naive/naive_socket_notifier.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 55597c4..a08bc1d 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -36,6 +36,7 @@
     #error "naive_socket_notifier is not supported on this platform"
 #endif
 #include <cerrno>
+#include <condition_variable>
 #include <cstring>
 
 __XDISPATCH_BEGIN_NAMESPACE
@@ -108,6 +109,7 @@ public:
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+                int error = 0;
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
@@ -126,6 +128,7 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+                    error = errno;
                 }
 
                 if (cookie != this_ptr->m_worker_cookie) {
@@ -141,7 +144,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
+                if (res < 0 && EBADF == error) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
@@ -174,7 +177,7 @@ public:
                     barrier.wait();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
-                                        << ") failed: " << strerror(errno);
+                                        << ") failed: " << strerror(error);
                 }
             }
         });
-- 
2.43.0


From d2b79d6d8c30c16c994662129f8463065bf0da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 13/27] fix: socket notifier must not run two handlers at once
 after a resume

A worker started by resume() while the previous one still waited for its
dispatched handler made both of them dispatch. The handler's cancelable is
also left before the waiting worker gets to know of it.
---
 src/naive/naive_socket_notifier.cpp | 48 +++++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index a08bc1d..9e6de42 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -61,6 +61,7 @@ public:
       , m_handler()
       , m_resume_counter(0)
       , m_worker_cookie(0)
+      , m_firing(false)
     {}
 
     ~socket_notifier_impl() override { socket_notifier_impl::suspend(); }
@@ -89,10 +90,6 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
-
         const auto this_ptr = shared_from_this();
         const auto cookie = m_worker_cookie;
 
@@ -104,6 +101,9 @@ public:
             ithreadpool::block_scope blocked;
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
+            // a previous worker may still be waiting for its handler
+            this_ptr->m_cond.wait(lock, [&] { return !this_ptr->m_firing; });
+
             while (cookie == this_ptr->m_worker_cookie) {
                 const auto socket = this_ptr->m_socket;
                 const auto type = this_ptr->m_type;
@@ -161,20 +161,32 @@ public:
                     const auto queue = this_ptr->m_queue;
                     auto& handler_cancelable = this_ptr->m_handler_cancelable;
 
-                    // no member access beyond this!
-                    inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
+                    this_ptr->m_firing = true;
+                    {
+                        // no member access beyond this!
+                        inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
-                    lightweight_barrier barrier;
-                    queue->async(make_operation(
-                      [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
-                          }
-                          barrier.complete();
-                      }));
-                    barrier.wait();
+                        lightweight_barrier barrier;
+                        queue->async(make_operation([handler,
+                                                     socket,
+                                                     type,
+                                                     &barrier,
+                                                     &handler_cancelable] {
+                            {
+                                cancelable_scope scope(handler_cancelable);
+                                if (scope) {
+                                    execute_operation_on_this_thread(
+                                      *handler, socket, type);
+                                }
+                            }
+                            // the cancelable must be left before, the notifier
+                            // may be gone as soon as the barrier is completed
+                            barrier.complete();
+                        }));
+                        barrier.wait();
+                    }
+                    this_ptr->m_firing = false;
+                    this_ptr->m_cond.notify_all();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
                                         << ") failed: " << strerror(error);
@@ -219,6 +231,7 @@ public:
 private:
     const backend_type m_backend;
     std::mutex m_CS;
+    std::condition_variable m_cond;
     const socket_t m_socket;
     const notifier_type m_type;
     iqueue_impl_ptr m_queue;
@@ -226,6 +239,7 @@ private:
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
     int m_worker_cookie;
+    bool m_firing;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From a34a44e1a4af642d843fdd10beed7d7d23a5478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 14/27] fix: signal_barrier must hold the values of the first
 raise

The handler ran on the parallel global queue, so that it could be invoked
before the members it uses were constructed, several raises competed for
the values and the values were destroyed ahead of the connection.
---
 include/xdispatch/signals_barrier.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..c5d2bfe 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -27,6 +27,7 @@
  * @{
  */
 
+#include <stdexcept>
 #include <tuple>
 
 #include "xdispatch/signals.h"
@@ -93,11 +94,17 @@ public:
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
       , m_barrier()
-      , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
-      }))
+      , m_values()
+      , m_connection(signal.connect(
+          [this](Args... values) {
+              // called with the signal locked, i.e. one raise after another
+              if (!m_barrier.was_completed()) {
+                  m_values.set(values...);
+                  m_barrier.complete();
+              }
+          },
+          global_queue(),
+          notification_mode::_synchronous_update))
     {}
 
     /**
@@ -154,8 +161,10 @@ public:
 private:
     signal<void(Args...)>& m_signal;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
     value_holder<0> m_values;
+    // last, the signal may be raised as soon as it is connected and
+    // until it has been disconnected
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 4b7b0c02595204dadec34698b6e7beba34ac632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 15/27] fix: only one of several competing disconnects must
 succeed

---
 src/signals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..b053521 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -199,18 +199,20 @@ signal_p::disconnect(connection& c)
 {
     const auto c_void = c.m_id.lock();
     const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
+    bool disconnected = false;
     if (c_handler) {
         std::lock_guard<std::mutex> lock(m_CS);
         const auto last =
           std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
+        // only one of several concurrent calls will find the handler
+        disconnected = last != m_handlers.end();
         m_handlers.erase(last, m_handlers.end());
     }
     c.m_id.reset();
     if (c_handler) {
         c_handler->disable();
-        return true;
     }
-    return false;
+    return disconnected;
 }
 
 void
-- 
2.43.0


From 5b824b9f92542224564fd305b5f323c0501c6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 16/27] fix: destroying a signal must not deadlock with its
 handlers

---
 src/signals.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index b053521..9243c8d 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -186,12 +186,19 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-
-    for (const auto& handler : m_handlers) {
-        handler->disable();
-    }
-    m_handlers.clear();
+    // handlers being executed may still use the signal, so make sure to wait
+    // for them without holding the lock
+    std::vector<connection_handler_ptr> handlers;
+    do {
+        handlers.clear();
+        {
+            std::lock_guard<std::mutex> lock(m_CS);
+            handlers.swap(m_handlers);
+        }
+        for (const auto& handler : handlers) {
+            handler->disable();
+        }
+    } while (!handlers.empty());
 }
 
 bool
-- 
2.43.0


From c05862dead0e1202b85eddd8eef685f67c3a4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 17/27] fix: skip_all must only suppress the calls queued so
 far

It disabled all handlers for good so that no further emit reached them, and
waited for active handlers with the signal locked.
---
 include/xdispatch/signals.h | 22 +++++++++++++++-------
 src/signals.cpp             |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..d693ac7 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -251,8 +251,15 @@ protected:
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the items that have been queued since the last skip
+        struct batch
+        {
+            // the number of items that have been queued
+            std::atomic<int> m_pending{ 0 };
+            // set as soon as the items are not to be executed anymore
+            std::atomic<bool> m_skipped{ false };
+        };
+        std::shared_ptr<batch> m_batch;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -388,11 +395,12 @@ public:
         std::lock_guard<std::mutex> lock(m_CS);
 
         for (const connection_handler_ptr& handler : m_handlers) {
-            auto pending = handler->m_pending++;
+            const auto batch = handler->m_batch;
+            auto pending = batch->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
+                    batch->m_pending--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
@@ -400,8 +408,8 @@ public:
                        pending < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    if (cancel_scope && !batch->m_skipped) {
+                        batch->m_pending--;
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -412,7 +420,7 @@ public:
                     handler->m_queue.async(std::move(invocation));
                 }
             } else {
-                handler->m_pending--;
+                batch->m_pending--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index 9243c8d..a485357 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -166,7 +166,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
   , m_active()
-  , m_pending(0)
+  , m_batch(std::make_shared<batch>())
   , m_mode(m)
 {}
 
@@ -228,7 +228,8 @@ signal_p::skip_all()
     std::lock_guard<std::mutex> lock(m_CS);
 
     for (const auto& handler : m_handlers) {
-        handler->disable();
+        handler->m_batch->m_skipped = true;
+        handler->m_batch = std::make_shared<connection_handler::batch>();
     }
 }
 
-- 
2.43.0


From 7bc44bd97281284f347f6ad388a5d37b59511b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 18/27] fix: connections must be safe to disconnect after their
 signal is gone

While an invocation was still queued the handler outlived its signal and a
disconnect locked the mutex of the destroyed signal.
---
 include/xdispatch/signals.h | 22 ++++++++++++++++++++++
 src/signals.cpp             | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index d693ac7..8f621f6 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -236,6 +236,17 @@ protected:
     /// Disallow copying of a signal to ensure consistent behavior
     signal_p(const signal_p&) = delete;
 
+    /// Gives access to a signal for as long as it exists
+    struct owner
+    {
+        explicit owner(signal_p* s)
+          : m_signal(s)
+        {}
+
+        std::mutex m_CS;
+        signal_p* m_signal;
+    };
+
     /// Private container class for holding a handler
     class XDISPATCH_EXPORT connection_handler
     {
@@ -262,6 +273,8 @@ protected:
         std::shared_ptr<batch> m_batch;
         // the mode in which the handler will be called
         notification_mode m_mode;
+        // the signal the handler has been connected to
+        std::shared_ptr<owner> m_owner;
     };
 
     // Protects parallel access
@@ -270,6 +283,15 @@ protected:
     std::unique_ptr<group> m_group;
     // List of connected handlers
     std::vector<connection_handler_ptr> m_handlers;
+
+private:
+    friend class connection;
+
+    /// Removes the handler of the given connection from its signal
+    static bool disconnect_handler(connection& c);
+
+    // Lets connections know when this signal has been destroyed
+    const std::shared_ptr<owner> m_owner;
 };
 
 template<typename Signature>
diff --git a/src/signals.cpp b/src/signals.cpp
index a485357..a0e9521 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -128,7 +128,8 @@ connection::disconnect()
 {
     bool disconnected = false;
     if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
+        // the parent might have been destroyed already
+        disconnected = signal_p::disconnect_handler(*this);
     }
     m_id.reset();
     m_parent = nullptr;
@@ -178,14 +179,21 @@ signal_p::connection_handler::disable()
 
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
+  , m_owner(std::make_shared<owner>(this))
 {}
 
 signal_p::signal_p()
   : m_group()
+  , m_owner(std::make_shared<owner>(this))
 {}
 
 signal_p::~signal_p()
 {
+    {
+        std::lock_guard<std::mutex> lock(m_owner->m_CS);
+        m_owner->m_signal = nullptr;
+    }
+
     // handlers being executed may still use the signal, so make sure to wait
     // for them without holding the lock
     std::vector<connection_handler_ptr> handlers;
@@ -203,17 +211,29 @@ signal_p::~signal_p()
 
 bool
 signal_p::disconnect(connection& c)
+{
+    return disconnect_handler(c);
+}
+
+bool
+signal_p::disconnect_handler(connection& c)
 {
     const auto c_void = c.m_id.lock();
     const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
     bool disconnected = false;
     if (c_handler) {
-        std::lock_guard<std::mutex> lock(m_CS);
-        const auto last =
-          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
-        // only one of several concurrent calls will find the handler
-        disconnected = last != m_handlers.end();
-        m_handlers.erase(last, m_handlers.end());
+        // keeps the signal alive while removing the handler
+        std::lock_guard<std::mutex> owner_lock(c_handler->m_owner->m_CS);
+        signal_p* const s = c_handler->m_owner->m_signal;
+        if (s) {
+            std::lock_guard<std::mutex> lock(s->m_CS);
+            auto& handlers = s->m_handlers;
+            const auto last =
+              std::remove(handlers.begin(), handlers.end(), c_handler);
+            // only one of several concurrent calls will find the handler
+            disconnected = last != handlers.end();
+            handlers.erase(last, handlers.end());
+        }
     }
     c.m_id.reset();
     if (c_handler) {
@@ -238,6 +258,7 @@ signal_p::connect(const connection_handler_ptr& job)
 {
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        job->m_owner = m_owner;
         m_handlers.push_back(job);
     }
     return connection(job, this);
-- 
2.43.0


From 5467df333af1e8913162e1c22c10cf1495f43e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 19/27] fix: connection_manager must not wait for handlers
 while locked

A handler adding a connection to the manager that is being reset would
never finish.
---
 include/xdispatch/signals.h |  3 +++
 src/signals.cpp             | 45 +++++++++++++++++++++++++++++++------
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 8f621f6..3c36c7f 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -484,6 +484,9 @@ public:
 private:
     connection_manager(const connection_manager&) = delete;
 
+    /// Destroys all connections to the given signal or simply all if null
+    void disconnect_all(const signal_p* s);
+
     std::mutex m_CS;
     std::vector<scoped_connection> m_connections;
 };
diff --git a/src/signals.cpp b/src/signals.cpp
index a0e9521..bc97001 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -28,24 +29,54 @@ __XDISPATCH_BEGIN_NAMESPACE
 
 connection_manager::~connection_manager()
 {
-    reset_connections();
+    bool empty = false;
+    while (!empty) {
+        reset_connections();
+        std::lock_guard<std::mutex> lock(m_CS);
+        empty = m_connections.empty();
+    }
 }
 
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    disconnect_all(nullptr);
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
+    disconnect_all(&s);
+}
+
+void
+connection_manager::disconnect_all(const signal_p* s)
+{
+    // disconnecting waits for active handlers and these might need this
+    // manager as well, hence it is done without holding the lock
+    std::vector<connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::copy_if(m_connections.begin(),
+                     m_connections.end(),
+                     std::back_inserter(connections),
+                     [s](const scoped_connection& sc) {
+                         return !s || sc.is_connected_to(*s);
+                     });
+    }
+    for (connection c : connections) {
+        c.disconnect();
+    }
+
     std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
+    const auto last =
+      std::remove_if(m_connections.begin(),
+                     m_connections.end(),
+                     [&connections](const scoped_connection& sc) {
+                         return std::find(connections.begin(),
+                                          connections.end(),
+                                          sc) != connections.end();
+                     });
     m_connections.erase(last, m_connections.end());
 }
 
-- 
2.43.0


From 6c0c152ce6c3ad6d5a35f723c4bb384f0b61f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 20/27] fix: blocked operations on a Qt thread pool lend their
 slot

QThreadPool::reserveThread() takes capacity away from the pool and
releaseThread() adds to it. Announcing a blocked thread used to reserve
another one, so that an operation waiting for others of the same pool (e.g.
apply() or group::wait()) deadlocked once all threads were waiting.
---
 src/qt5/qt5_threadpool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..0feb2f6 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,15 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // lends the capacity of the blocked thread to other operations, quoting
+    // QThreadPool: "useful when a thread goes to sleep waiting for more work"
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From 4eaef4ef1609e57e39b8c44e932025c0342f3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 21/27] fix: queues on a Qt thread pool may be released by
 their own operations

The destructor of ThreadPoolProxy waited for the pool to be done and
deadlocked when the last reference to the queue was owned by an operation
running on that very pool.
---
 src/qt5/qt5_threadpool.cpp | 22 +++++++++++-----------
 src/qt5/qt5_threadpool.h   |  6 +++++-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index 0feb2f6..3bbade9 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -34,12 +34,7 @@ ThreadPoolProxy::ThreadPoolProxy(QThreadPool* pool)
     XDISPATCH_ASSERT(pool);
 }
 
-ThreadPoolProxy::~ThreadPoolProxy()
-{
-    if (m_pool) {
-        m_pool->waitForDone();
-    }
-}
+ThreadPoolProxy::~ThreadPoolProxy() = default;
 
 void
 ThreadPoolProxy::execute(const operation_ptr& work,
@@ -48,21 +43,26 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     class OperationRunnable : public QRunnable
     {
     public:
-        OperationRunnable(const operation_ptr& op, naive::ithreadpool* pool)
+        OperationRunnable(const operation_ptr& op,
+                          std::shared_ptr<naive::ithreadpool> pool)
           : m_operation(op)
-          , m_pool(pool)
+          , m_pool(std::move(pool))
         {
             setAutoDelete(true);
         }
 
         void run() final
         {
-            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);
+            naive::ithreadpool::run_with_threadpool(*m_operation,
+                                                    m_pool.get());
         }
 
     private:
         const operation_ptr m_operation;
-        naive::ithreadpool* const m_pool;
+        // keeps the proxy alive until all its work was executed, waiting for
+        // that in the destructor instead would deadlock as soon as the last
+        // reference is released by an operation executed on the pool
+        const std::shared_ptr<naive::ithreadpool> m_pool;
     };
 
     int p = 0;
@@ -83,7 +83,7 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     }
 
     XDISPATCH_ASSERT(m_pool);
-    m_pool->start(new OperationRunnable(work, this), p);
+    m_pool->start(new OperationRunnable(work, shared_from_this()), p);
 }
 
 void
diff --git a/src/qt5/qt5_threadpool.h b/src/qt5/qt5_threadpool.h
index e9f26fd..ab633ac 100644
--- a/src/qt5/qt5_threadpool.h
+++ b/src/qt5/qt5_threadpool.h
@@ -25,12 +25,16 @@
 #include <QtCore/QThreadPool>
 #include <QtCore/QPointer>
 
+#include <memory>
+
 #include "qt5_backend_internal.h"
 
 __XDISPATCH_BEGIN_NAMESPACE
 namespace qt5 {
 
-class ThreadPoolProxy : public naive::ithreadpool
+class ThreadPoolProxy
+  : public naive::ithreadpool
+  , public std::enable_shared_from_this<ThreadPoolProxy>
 {
 public:
     ThreadPoolProxy(QThreadPool* pool);
-- 
2.43.0


From d4f50203b62e8957b454646c57117e751d3bab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 22/27] fix: connections of Qt objects made outside of their
 thread end with the object

QObject::setParent() refuses parents living in another thread, the
connection manager leaked and its connections outlived the object.
---
 src/qt5/qt5_signals.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qt5/qt5_signals.h b/src/qt5/qt5_signals.h
index fab9213..1c32ead 100644
--- a/src/qt5/qt5_signals.h
+++ b/src/qt5/qt5_signals.h
@@ -64,6 +64,8 @@ public:
           QString(), Qt::FindDirectChildrenOnly);
         if (createIfMissing && nullptr == oc) {
             oc = new ObjectConnectionManager;
+            // an object cannot adopt children living in another thread
+            oc->moveToThread(object->thread());
             oc->setParent(object);
         }
         return oc;
-- 
2.43.0


From 1d3bee781f264ac199d99a69fd7ccd9be6edb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 23/27] fix: connection managers wait for handlers which have
 reset them

A handler disconnecting itself through its connection_manager was dropped
from the manager while still running, so that the destruction of the
manager (or of the Qt object owning it) did not wait for it any more.
---
 src/signals.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index bc97001..c4b7615 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -29,12 +29,13 @@ __XDISPATCH_BEGIN_NAMESPACE
 
 connection_manager::~connection_manager()
 {
-    bool empty = false;
-    while (!empty) {
-        reset_connections();
+    // handlers may add further connections until they are disconnected
+    std::vector<scoped_connection> connections;
+    do {
+        connections.clear();
         std::lock_guard<std::mutex> lock(m_CS);
-        empty = m_connections.empty();
-    }
+        connections.swap(m_connections);
+    } while (!connections.empty());
 }
 
 void
@@ -68,14 +69,14 @@ connection_manager::disconnect_all(const signal_p* s)
         c.disconnect();
     }
 
+    // when called by one of the handlers it is still being executed,
+    // remember its connection to be able to wait for it later on
     std::lock_guard<std::mutex> lock(m_CS);
     const auto last =
       std::remove_if(m_connections.begin(),
                      m_connections.end(),
-                     [&connections](const scoped_connection& sc) {
-                         return std::find(connections.begin(),
-                                          connections.end(),
-                                          sc) != connections.end();
+                     [](const scoped_connection& sc) {
+                         return !sc.connected();
                      });
     m_connections.erase(last, m_connections.end());
 }
-- 
2.43.0


From f85c4d6d8dcaa9a6ab1d5775959c1022ebabdc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 24/27] fix: order all dequeues of a block before the block is
 reused

The dequeue which empties a block hands it to the free list but did not
synchronise with the dequeues of the other elements of that block, their
accesses raced with those of the next producer using the block.
---
 src/naive/3rdparty/concurrentqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive/3rdparty/concurrentqueue.h b/src/naive/3rdparty/concurrentqueue.h
index e90b9c2..a0ff8b0 100644
--- a/src/naive/3rdparty/concurrentqueue.h
+++ b/src/naive/3rdparty/concurrentqueue.h
@@ -1841,7 +1841,7 @@ private:
             else
             {
                 // Increment counter
-                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_release );
+                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_acq_rel );
                 assert( prevVal < BLOCK_SIZE );
                 return prevVal == BLOCK_SIZE - 1;
             }
-- 
2.43.0


From 0d167b1258e4df4d3f40a702ea6d173a333ff832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 25/27] fix: totally order the counters of the threadpool and
 of its semaphore

A thread about to wait (or end) announces this first and looks for work a
last time while a thread adding work counts it first and looks for waiting
threads then. With acquire/release only, both may miss what the other one
has done so that the operation is not executed although workers are idle.
---
 src/naive/naive_semaphore.cpp  | 16 ++++++++--------
 src/naive/naive_threadpool.cpp |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/naive/naive_semaphore.cpp b/src/naive/naive_semaphore.cpp
index dd02f18..912c161 100644
--- a/src/naive/naive_semaphore.cpp
+++ b/src/naive/naive_semaphore.cpp
@@ -40,12 +40,12 @@ semaphore::semaphore(int count)
 bool
 semaphore::try_acquire()
 {
-    // use consume semantics since we do not require a full
-    // write barrier here but only depend on any changes to
-    // m_count to be visible. The full barrier will be issued
-    // by compare_exchange_weak below instead and would only
-    // be duplicated if done up here as well.
-    auto old_count = m_count.load(std::memory_order_consume);
+    // this needs to take part in the total order with release() and any
+    // counters changed by the caller before: threads announce that they
+    // are going to wait (or end) first and then test the count a last time
+    // while release() changes the count first and looks for waiters then.
+    // At least one of them must see the change made by the other.
+    auto old_count = m_count.load(std::memory_order_seq_cst);
     do {
         XDISPATCH_ASSERT(old_count >= 0);
         if (0 == old_count) {
@@ -100,7 +100,7 @@ semaphore::wait_acquire(std::chrono::milliseconds timeout)
                 explicit waiter_scope(std::atomic<int>& waiters)
                   : m_waiters(waiters)
                 {
-                    m_waiters.fetch_add(1, std::memory_order_release);
+                    m_waiters.fetch_add(1, std::memory_order_seq_cst);
                 }
                 waiter_scope(const waiter_scope& other) = delete;
                 ~waiter_scope()
@@ -133,7 +133,7 @@ semaphore::release(int count)
     m_count.fetch_add(count, std::memory_order_seq_cst);
 
     // if there is waiters we should notify them
-    if (0 != m_waiters.load(std::memory_order_acquire)) {
+    if (0 != m_waiters.load(std::memory_order_seq_cst)) {
         std::unique_lock<std::mutex> lock(m_CS);
         if (1 == count) {
             m_cond.notify_one();
diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 5ebf61a..7d811b9 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -171,9 +171,9 @@ public:
                     } else {
                         // end this thread it seems there is no work remaining
                         m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
                         m_data->m_active_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
 
                         // Opportunistic recovery:
                         // There is a chance that while we made the decision to
@@ -323,7 +323,7 @@ threadpool::schedule(const data_ptr& data)
     // note: both counters change concurrently so they cannot be
     //       expected to be consistent with each other
     int active_threads =
-      data->m_active_threads.load(std::memory_order_consume);
+      data->m_active_threads.load(std::memory_order_seq_cst);
     const int idle_threads =
       data->m_idle_threads.load(std::memory_order_seq_cst);
     XDISPATCH_ASSERT(idle_threads >= 0);
-- 
2.43.0


From 8fcfcf93490ff9760a8df0ae47d18fd471a3b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 26/27] fix: socket notifiers watch sockets beyond FD_SETSIZE

select() cannot be used with descriptors of FD_SETSIZE or above, setting
their bit wrote past the end of the set on the stack. poll() has no such
limit.
---
 src/naive/naive_socket_notifier.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 9e6de42..679f01a 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -31,7 +31,7 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
@@ -110,9 +110,13 @@ public:
 
                 int res = -1;
                 int error = 0;
+#if (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                bool invalid = false;
+#endif
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
                     struct timeval timeout;
                     constexpr auto k5sec = 5;
                     timeout.tv_sec = k5sec;
@@ -128,6 +132,19 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                    // in contrast to select() this is not limited
+                    // to sockets below FD_SETSIZE
+                    struct pollfd fds;
+                    fds.fd = socket;
+                    fds.events =
+                      (notifier_type::READ == type) ? POLLIN : POLLOUT;
+                    fds.revents = 0;
+                    constexpr int k5sec = 5000;
+
+                    res = poll(&fds, 1, k5sec);
+                    invalid = res > 0 && (fds.revents & POLLNVAL) != 0;
+#endif
                     error = errno;
                 }
 
@@ -144,7 +161,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (res < 0 && EBADF == error) {
+                if (invalid) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
-- 
2.43.0


From c822c5c4badfe021a972d4d98952b9fab4bed65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 27/27] fix: the longest timeouts do not overflow

Waiting for a group or a barrier with std::chrono::milliseconds::max()
(or anything else beyond the range of the clock) returned at once.
---
 src/lightweight_barrier.cpp    |  2 +-
 src/naive/naive_consumable.cpp |  2 +-
 src/xdispatch_internal.h       | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..b93ddd3 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -53,7 +53,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
             if (std::chrono::milliseconds(-1) != timeout) {
-                return m_cond.wait_for(lock, timeout, predicate);
+                return m_cond.wait_for(lock, limit_timeout(timeout), predicate);
             }
             m_cond.wait(lock, predicate);
             return true;
diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index adb278e..9cb6679 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -74,7 +74,7 @@ consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
         m_cond.wait(lock, consumed);
         return true;
     }
-    return m_cond.wait_for(lock, timeout, consumed);
+    return m_cond.wait_for(lock, limit_timeout(timeout), consumed);
 }
 
 } // namespace naive
diff --git a/src/xdispatch_internal.h b/src/xdispatch_internal.h
index a5f0769..dcdfd59 100644
--- a/src/xdispatch_internal.h
+++ b/src/xdispatch_internal.h
@@ -39,6 +39,8 @@
 #include "../include/xdispatch/dispatch_decl.h"
 
 #include <assert.h>
+#include <algorithm>
+#include <chrono>
 #include <stdexcept>
 #define XDISPATCH_ASSERT(X)                                                    \
     {                                                                          \
@@ -79,6 +81,15 @@ execute_operation_on_this_thread(operation&);
 ibackend&
 backend_for_type(backend_type type);
 
+/// @returns timeout limited so that adding it to the current time of any
+///          clock does not overflow
+inline std::chrono::milliseconds
+limit_timeout(std::chrono::milliseconds timeout)
+{
+    constexpr std::chrono::hours k100years(100 * 365 * 24);
+    return std::min<std::chrono::milliseconds>(timeout, k100years);
+}
+
 __XDISPATCH_END_NAMESPACE
 
 #undef __XDISPATCH_INDIRECT__
-- 
2.43.0

