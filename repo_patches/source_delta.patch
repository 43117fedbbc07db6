From 4788f26acd1bdb9458ca029b5172b7f0a649d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 01/52] fix: queue consumer must not leave a block based on a
 stale write count

try_dequeue read the number of claimed slots, then saw a successor block that was
linked after that read, and advanced past the block even though more of its slots
had been filled in between. Those items were never dequeued.
---
 src/threading/scheduler/queue/MPSCQueue.hpp | 5 +++++
 src/threading/scheduler/queue/TaskQueue.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..c108eb6 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -171,6 +171,11 @@ namespace threading {
                                 return false;
                             }
                         }
+                        else if (published < BLOCK_SIZE) {
+                            // A successor only exists once every slot of this block has been claimed, so
+                            // our view of write is stale and this block may hold items we haven't seen.
+                            continue;
+                        }
                         else {
                             // We're the sole consumer so advancing head_block is a plain store. The old
                             // block goes to the graveyard so any producer that still holds a pointer to
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..b07fe11 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -169,6 +169,11 @@ namespace threading {
                                         return false;
                                     }
                                 }
+                                else if (published < BLOCK_SIZE) {
+                                    // A successor only exists once every slot of this block has been claimed, so
+                                    // our view of write is stale and this block may hold items we haven't seen.
+                                    continue;
+                                }
                                 else if (head.compare_exchange_strong(block,
                                                                       next,
                                                                       std::memory_order_release,
-- 
2.43.0


From 3dd12e918213ef4b9b44ba80a3b5ce4394c6945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 02/52] fix: emitting to a pool that was never created must not
 terminate during shutdown

Scheduler::submit is noexcept but get_pool throws once the scheduler is stopping, so an
emit made while shutting down whose reaction runs in a so far unused pool called
std::terminate. The task is now dropped like any task sent to a stopped pool.
---
 src/threading/scheduler/Scheduler.cpp | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 1419dfe..2be9af7 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -205,7 +205,9 @@ namespace threading {
                 lock->add(get_group(desc)->lock(task_id, priority, [pool] {
                     const auto current_pool = Pool::current();
                     const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
-                    pool->notify(!current_pool_idle);
+                    if (pool != nullptr) {
+                        pool->notify(!current_pool_idle);
+                    }
                 }));
             }
 
@@ -234,16 +236,21 @@ namespace threading {
             // The cache update is benign-racing: two submitters that miss simultaneously will
             // both call `get_pool()` and store the same pointer; last writer wins, identical
             // value.
-            Pool* pool = nullptr;
-            if (task->parent) {
-                pool = task->parent->scheduler_data.load(std::memory_order_acquire);
-                if (pool == nullptr) {
+            Pool* pool = task->parent ? task->parent->scheduler_data.load(std::memory_order_acquire) : nullptr;
+            if (pool == nullptr) {
+                try {
                     pool = get_pool(task->pool_descriptor).get();
-                    task->parent->scheduler_data.store(pool, std::memory_order_release);
+                    if (task->parent) {
+                        task->parent->scheduler_data.store(pool, std::memory_order_release);
+                    }
+                }
+                catch (const std::invalid_argument&) {
+                    // We are shutting down and this pool was never created. Like any other pool that no longer
+                    // accepts tasks this task is dropped, unless it can be run right here.
+                    if (!task->run_inline) {
+                        return;
+                    }
                 }
-            }
-            else {
-                pool = get_pool(task->pool_descriptor).get();
             }
 
             const auto current_pool = Pool::current();
@@ -260,7 +267,9 @@ namespace threading {
                     }
                 }
 
-                group->try_submit(std::move(task), pool, !current_pool_idle);
+                if (pool != nullptr) {
+                    group->try_submit(std::move(task), pool, !current_pool_idle);
+                }
                 return;
             }
 
@@ -270,7 +279,7 @@ namespace threading {
             if (task->run_inline && (group_lock == nullptr || group_lock->lock())) {
                 task->run();
             }
-            else {
+            else if (pool != nullptr) {
                 pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
             }
         }
-- 
2.43.0


From bf125cdd3e956f05d5dc563fc5edc5c08e815775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 03/52] fix: emitting while reactions bind or unbind must not
 iterate a changing list

Local and Inline emits iterated the vector of bound reactions by reference, while binding
or unbinding (for example by a Once reaction that runs inline, or from another thread)
modified it. Emits now iterate an immutable snapshot, and an unbound reaction does not
make tasks for emits that are still holding such a snapshot.
---
 src/dsl/operation/TypeBind.hpp | 15 ++-------
 src/dsl/word/emit/Inline.hpp   |  3 +-
 src/dsl/word/emit/Local.hpp    |  3 +-
 src/threading/Reaction.cpp     |  3 ++
 src/util/TypeList.hpp          | 56 +++++++++++++++++++++++++++++-----
 5 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..f2f42a0 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -23,8 +23,6 @@
 #ifndef NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 #define NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 
-#include <algorithm>
-
 #include "../store/TypeCallbackStore.hpp"
 
 namespace NUClear {
@@ -68,21 +66,12 @@ namespace dsl {
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
+                    store::TypeCallbackStore<DataType>::remove_if(
                         [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
-                    // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::add(reaction);
             }
         };
 
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..a9cd1ec 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -58,7 +58,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
                         // Set our thread local store data each time (as during inline it can be overwritten)
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
                         powerplant.submit(reaction->get_task(true));
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..862c368 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -53,7 +53,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
 
                         // Set our thread local store data
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..ba56127 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // An emit which is already in progress may still hold this reaction, it must not make any more tasks from it
+        enabled = false;
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/util/TypeList.hpp b/src/util/TypeList.hpp
index 8473c55..b458780 100644
--- a/src/util/TypeList.hpp
+++ b/src/util/TypeList.hpp
@@ -23,8 +23,10 @@
 #ifndef NUCLEAR_UTIL_TYPELIST_HPP
 #define NUCLEAR_UTIL_TYPELIST_HPP
 
+#include <algorithm>
 #include <memory>
 #include <mutex>
+#include <utility>
 #include <vector>
 
 namespace NUClear {
@@ -42,23 +44,63 @@ namespace util {
         TypeList operator=(TypeList&& /*other*/) noexcept = delete;
 
     private:
-        /// The data variable where the data is stored for this map key
-        static std::vector<Value> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// The data variable where the data is stored for this map key, replaced whenever the list changes
+        static std::shared_ptr<const std::vector<Value>> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// Protects the data variable
+        static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     public:
         /**
-         * Gets the list that is stored in this type location.
+         * Gets the list that is stored in this type location as it is at this moment.
          *
-         * @return A reference to the vector stored in this location
+         * The list that is returned never changes, so it can be iterated while other code (including code called for one
+         * of its elements) adds and removes elements.
+         *
+         * @return the list stored in this location
+         */
+        static std::shared_ptr<const std::vector<Value>> get() {
+            const std::lock_guard<std::mutex> lock(mutex);
+            return data == nullptr ? std::make_shared<const std::vector<Value>>() : data;
+        }
+
+        /**
+         * Adds an element to the end of the list.
+         *
+         * @param value the element to add
          */
-        static std::vector<Value>& get() {
-            return data;
+        static void add(const Value& value) {
+            const std::lock_guard<std::mutex> lock(mutex);
+            auto next = data == nullptr ? std::make_shared<std::vector<Value>>()
+                                        : std::make_shared<std::vector<Value>>(*data);
+            next->push_back(value);
+            data = std::move(next);
+        }
+
+        /**
+         * Removes all the elements that match the predicate from the list.
+         *
+         * @param predicate returns true for the elements to remove
+         */
+        template <typename Predicate>
+        static void remove_if(const Predicate& predicate) {
+            std::shared_ptr<const std::vector<Value>> old;  // Destroyed after the mutex is released
+            const std::lock_guard<std::mutex> lock(mutex);
+            if (data == nullptr) {
+                return;
+            }
+            auto next = std::make_shared<std::vector<Value>>(*data);
+            next->erase(std::remove_if(next->begin(), next->end(), predicate), next->end());
+            old  = std::move(data);
+            data = std::move(next);
         }
     };
 
     /// Initialize our type list data
     template <typename MapID, typename Key, typename Value>
-    std::vector<Value> TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    std::shared_ptr<const std::vector<Value>>
+        TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    template <typename MapID, typename Key, typename Value>
+    std::mutex TypeList<MapID, Key, Value>::mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
 }  // namespace util
 }  // namespace NUClear
-- 
2.43.0


From 718583a50a1ac17bb775a2b8c52b4cc1b67f6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 04/52] fix: run post_run of a reaction whose callback throws

A throwing callback skipped the post_run of its words, so an IO reaction was never polled
again and a Once reaction stayed bound and ran again.
---
 src/util/CallbackGenerator.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 93ada18..9672046 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -131,18 +131,26 @@ namespace util {
                 }
 
                 // We have to catch any exceptions
-                try {
-                    auto scope = DSL::scope(task);             // Acquire the scope
-                    DSL::pre_run(task);                        // Pre run tasks
-                    util::apply_relevant(c, std::move(data));  // Run the callback
-                    DSL::post_run(task);                       // Post run tasks
-                    std::ignore = scope;                       // Ignore unused variable warning
-                }
-                catch (...) {
-                    // Catch our exception if it happens
+                const auto record_exception = [&task] {
                     if (task.statistics != nullptr) {
                         task.statistics->exception = std::current_exception();
                     }
+                };
+                try {
+                    auto scope = DSL::scope(task);  // Acquire the scope
+                    DSL::pre_run(task);             // Pre run tasks
+                    try {
+                        util::apply_relevant(c, std::move(data));  // Run the callback
+                    }
+                    catch (...) {
+                        // Catch our exception if it happens
+                        record_exception();
+                    }
+                    DSL::post_run(task);  // Post run tasks happen even if the callback threw
+                    std::ignore = scope;  // Ignore unused variable warning
+                }
+                catch (...) {
+                    record_exception();
                 }
 
                 if (task.statistics != nullptr) {
-- 
2.43.0


From 0beb61b9ac1166e8068154a857264503db202ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 05/52] fix: concurrent emits to a Buffer or Single reaction
 must not all be rejected

Tasks that were about to be rejected were counted as active, so two concurrent emits to an
inactive Single reaction could reject each other and the reaction never ran. Buffer now
counts only the tasks that hold a place.
---
 src/dsl/word/Buffer.hpp        | 21 ++++++++++++++++++---
 src/threading/Reaction.hpp     |  3 +++
 src/threading/ReactionTask.cpp |  3 +++
 src/threading/ReactionTask.hpp |  2 ++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/dsl/word/Buffer.hpp b/src/dsl/word/Buffer.hpp
index 8cf395a..52e8ff4 100644
--- a/src/dsl/word/Buffer.hpp
+++ b/src/dsl/word/Buffer.hpp
@@ -23,7 +23,10 @@
 #ifndef NUCLEAR_DSL_WORD_BUFFER_HPP
 #define NUCLEAR_DSL_WORD_BUFFER_HPP
 
+#include <atomic>
+
 #include "../../threading/Reaction.hpp"
+#include "../../threading/ReactionTask.hpp"
 
 namespace NUClear {
 namespace dsl {
@@ -47,9 +50,21 @@ namespace dsl {
         struct Buffer {
 
             template <typename DSL>
-            static bool precondition(const threading::ReactionTask& task) {
-                // We only run if there are less than the target number of active tasks
-                return task.parent->active_tasks.load(std::memory_order_acquire) < (n + 1);
+            static bool precondition(threading::ReactionTask& task) {
+                // We only run if we can claim one of the n places.
+                // Only tasks which hold a place are counted, tasks that are rejected must not cause others to be rejected
+                auto& buffered = task.parent->buffered_tasks;
+                int current    = buffered.load(std::memory_order_acquire);
+                if (task.buffered) {
+                    return current <= n;
+                }
+                while (current < n) {
+                    if (buffered.compare_exchange_weak(current, current + 1, std::memory_order_acq_rel)) {
+                        task.buffered = true;
+                        return true;
+                    }
+                }
+                return false;
             }
         };
 
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fc8eec2..2f647d9 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -119,6 +119,9 @@ namespace threading {
         /// the number of currently active tasks (existing reaction tasks)
         std::atomic<int> active_tasks{0};
 
+        /// the number of currently active tasks that hold a place in the buffer of this reaction (see dsl::word::Buffer)
+        std::atomic<int> buffered_tasks{0};
+
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
diff --git a/src/threading/ReactionTask.cpp b/src/threading/ReactionTask.cpp
index 5e3eddf..17fcb54 100644
--- a/src/threading/ReactionTask.cpp
+++ b/src/threading/ReactionTask.cpp
@@ -41,6 +41,9 @@ namespace threading {
     ReactionTask::~ReactionTask() {
         // Decrement the number of active tasks
         if (parent != nullptr) {
+            if (buffered) {
+                parent->buffered_tasks.fetch_sub(1, std::memory_order_release);
+            }
             parent->active_tasks.fetch_sub(1, std::memory_order_release);
         }
     }
diff --git a/src/threading/ReactionTask.hpp b/src/threading/ReactionTask.hpp
index b559d0c..cee74eb 100644
--- a/src/threading/ReactionTask.hpp
+++ b/src/threading/ReactionTask.hpp
@@ -133,6 +133,8 @@ namespace threading {
         NUClear::id_t id;
         /// If the task should execute inline
         bool run_inline{false};
+        /// If this task holds a place in the buffer of its parent
+        bool buffered{false};
 
         /// The priority to run this task at
         int priority;
-- 
2.43.0


From 5ed89691ced4c3d9463a484f3ab58b9fe4fd683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 06/52] fix: a Once reaction must not run again for an emit
 that started before it was unbound

---
 src/dsl/word/Once.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsl/word/Once.hpp b/src/dsl/word/Once.hpp
index 7699971..799ed45 100644
--- a/src/dsl/word/Once.hpp
+++ b/src/dsl/word/Once.hpp
@@ -39,6 +39,12 @@ namespace dsl {
          */
         struct Once : Single {
 
+            // An emit that was already in progress when we were unbound must not run us again.
+            template <typename DSL>
+            static bool precondition(threading::ReactionTask& task) {
+                return Single::precondition<DSL>(task) && task.parent->is_enabled();
+            }
+
             // Post condition to unbind this reaction.
             template <typename DSL>
             static void post_run(threading::ReactionTask& task) {
-- 
2.43.0


From a7b2bd7a2f9f1f6669466d9575ca96f1a7562fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 07/52] fix: a task waiting for its groups must not hide the
 runnable tasks queued behind it

A worker that dequeued a task whose group lock was not available put it back and went to
sleep without looking at the rest of its queue. When the blocked task was waiting for one of
those tasks (which can already hold a group token) the pool never ran anything again.
---
 src/threading/scheduler/Pool.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 697fc64..8f0cb11 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -400,19 +400,27 @@ namespace threading {
 
                 bool got = false;
                 if (live) {
+                    // Tasks whose lock isn't acquirable must not hide the runnable tasks behind them. Set them aside
+                    // and put them back once we know what to do, someone will notify us when their lock state changes.
+                    std::vector<Task> blocked;
                     Task task;
-                    got = try_dequeue_task(task);
-                    if (got) {
-                        if (task.lock == nullptr || task.lock->lock()) {
-                            thread_idle[std::this_thread::get_id()] = nullptr;
-                            pool_idle                               = nullptr;
-                            return task;
+                    bool locked = false;
+                    while (!locked && try_dequeue_task(task)) {
+                        got    = true;
+                        locked = task.lock == nullptr || task.lock->lock();
+                        if (!locked) {
+                            blocked.push_back(std::move(task));
                         }
-                        // The task was dequeued but its lock isn't acquirable. Re-enqueue and
-                        // wait for someone to notify us when the lock state changes.
-                        const std::size_t bucket = queue::priority_index(task.task->priority);
+                    }
+                    for (auto& b : blocked) {
+                        const std::size_t bucket = queue::priority_index(b.task->priority);
                         pending_tasks.fetch_add(1, std::memory_order_release);
-                        buckets[bucket]->enqueue(std::move(task));
+                        buckets[bucket]->enqueue(std::move(b));
+                    }
+                    if (locked) {
+                        thread_idle[std::this_thread::get_id()] = nullptr;
+                        pool_idle                               = nullptr;
+                        return task;
                     }
                 }
                 live = false;
-- 
2.43.0


From 5399e5ae5cd123e57a6fead04c5cd3c3fd0fc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 08/52] fix: group tokens must not be over-subscribed, lost or
 held while waiting for other groups

---
 src/threading/scheduler/Group.cpp     | 303 +++++++++++++-------------
 src/threading/scheduler/Group.hpp     |  84 +++++--
 src/threading/scheduler/Scheduler.cpp |   8 +-
 3 files changed, 220 insertions(+), 175 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..1a6da82 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -59,73 +59,25 @@ namespace threading {
             : group(group), handle(std::move(handle)) {}
 
         Group::GroupLock::~GroupLock() {
-            std::vector<std::shared_ptr<LockHandle>> to_notify;
-            bool removed_from_queue = false;
-            bool was_locked         = false;
-            int prev_tokens         = 0;
+            Handover handover;
 
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(group.mutex);
                 if (handle->locked) {
                     handle->locked = false;
-                    prev_tokens    = group.tokens.fetch_add(1, std::memory_order_acq_rel);
-                    was_locked     = true;
+                    group.tokens.fetch_add(1, std::memory_order_acq_rel);
                 }
 
                 auto it = std::find(group.queue.begin(), group.queue.end(), handle);
                 if (it != group.queue.end()) {
                     group.queue.erase(it);
-                    removed_from_queue = true;
+                    group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
                 }
 
-                int free_tokens = group.tokens.load(std::memory_order_relaxed);
-                for (const auto& h : group.queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
-                    }
-                }
+                handover = group.hand_over_tokens();
             }
 
-            if (removed_from_queue) {
-                group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
-            }
-
-            for (const auto& h : to_notify) {
-                h->notify();
-            }
-
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
-            if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
-
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-            }
+            handover.finish();
         }
 
         bool Group::GroupLock::lock() {
@@ -134,22 +86,37 @@ namespace threading {
             }
 
             const std::lock_guard<std::mutex> lock(group.mutex);
+            return group.take_token(handle);
+        }
 
-            int free = group.tokens.load(std::memory_order_relaxed);
-            for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
+        Group::MultiLock::MultiLock(std::vector<std::unique_ptr<GroupLock>>&& locks) : locks(std::move(locks)) {}
 
-                if (free < 0) {
+        bool Group::MultiLock::lock() {
+            if (locked) {
+                return true;
+            }
+
+            // Hold all of the groups still. Everyone lists the groups in the same order so this can't deadlock.
+            std::vector<std::unique_lock<std::mutex>> held;
+            held.reserve(locks.size());
+            for (const auto& l : locks) {
+                held.emplace_back(l->group.mutex);
+            }
+
+            // All or nothing: keeping some of the tokens while waiting for the others would deadlock with a waiter that
+            // is ahead of us for one of the others and is waiting for one of those that we keep.
+            for (auto it = locks.begin(); it != locks.end(); ++it) {
+                if (!(*it)->group.take_token((*it)->handle)) {
+                    while (it != locks.begin()) {
+                        --it;
+                        (*it)->handle->locked = false;
+                        (*it)->group.tokens.fetch_add(1, std::memory_order_acq_rel);
+                    }
                     return false;
                 }
-                if (h == handle) {
-                    handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
-                    return true;
-                }
             }
-
-            return false;
+            locked = true;
+            return true;
         }
 
         Group::Group(std::shared_ptr<const util::GroupDescriptor> descriptor)
@@ -224,40 +191,31 @@ namespace threading {
         }
 
         void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
-            }
+            Handover handover;
 
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
-            }
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
 
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
+                // Someone has already found us in the wait buckets and given us a token
+                if (slot->load(std::memory_order_acquire)) {
+                    return;
+                }
+
+                // A token is free, but a multi-group slow waiter is pending: the slow path has priority.
+                // Stay parked UNCOUNTED until the slow path has cleared. This is what stops a single-group fast submit
+                // from jumping ahead of an older multi-group waiter (see dsl/SyncMulti).
+                if (slow_pending.load(std::memory_order_acquire) == 0 || tokens.load(std::memory_order_acquire) <= 0) {
+                    // Reserve a slot in the signed counter so that nobody can take a token ahead of us on the lock-free
+                    // path, then take part in sharing out whatever is free.
                     tokens.fetch_sub(1, std::memory_order_acq_rel);
+                    slot->store(true, std::memory_order_release);
+                    ++counted_waiters;
+                    handover = hand_over_tokens();
                 }
             }
 
+            handover.finish();
+
             // The destination pool's "pending idle" latch was set by register_external_waiter
             // above; that path also notifies one waiting worker so a pool that is parked on its
             // condition variable can act on the latch immediately. See Pool::register_external_waiter
@@ -267,85 +225,130 @@ namespace threading {
         }
 
         void Group::release_token() noexcept {
-            const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
-
-            // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
-            // That waiter committed before any slow waiter and now owns the slot we just freed, so it
-            // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
-            if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
+            Handover handover;
+
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                tokens.fetch_add(1, std::memory_order_acq_rel);
+                handover = hand_over_tokens();
             }
 
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                notify_slow_path();
-                return;
+            handover.finish();
+        }
+
+        bool Group::take_token(const std::shared_ptr<LockHandle>& handle) noexcept {
+            // Every unlocked waiter ahead of us needs a token before we do
+            int ahead = 0;
+            for (const auto& h : queue) {
+                if (h == handle) {
+                    break;
+                }
+                ahead += h->locked ? 0 : 1;
             }
 
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
+            // The lock-free path may take tokens at the same time
+            int available = tokens.load(std::memory_order_acquire);
+            while (available > ahead) {
+                if (tokens.compare_exchange_weak(available, available - 1, std::memory_order_acq_rel)) {
+                    handle->locked = true;
+                    return true;
+                }
             }
+
+            // We must be told again when it is worth trying again
+            handle->notified = false;
+            return false;
         }
 
-        void Group::notify_slow_path() noexcept {
-            std::vector<std::shared_ptr<LockHandle>> to_notify;
-            /*mutex scope*/ {
-                const std::lock_guard<std::mutex> lock(mutex);
-                int free_tokens = tokens.load(std::memory_order_relaxed);
-                for (const auto& h : queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
+        Group::Handover Group::hand_over_tokens() noexcept {
+            Handover out;
+
+            // While the mutex is held tokens == concurrency - running - counted_waiters.
+            // Counted waiters own the slots that become free, even when slow_pending > 0: they committed before any slow
+            // waiter could have taken a token. Uncounted waiters get the rest once no slow waiter wants them.
+            while (true) {
+                const bool owed = counted_waiters > 0;
+                if (owed) {
+                    if (tokens.load(std::memory_order_acquire) + counted_waiters <= 0) {
+                        break;
+                    }
+                }
+                else {
+                    // Take the token first as the lock-free path could take it at any time
+                    int available = tokens.load(std::memory_order_acquire);
+                    if (slow_pending.load(std::memory_order_acquire) > 0) {
+                        break;
+                    }
+                    while (available > 0
+                           && !tokens.compare_exchange_weak(available, available - 1, std::memory_order_acq_rel)) {
+                    }
+                    if (available <= 0) {
+                        break;
+                    }
+                }
+
+                WaitEntry entry;
+                if (!dequeue_waiter(entry)) {
+                    if (!owed) {
+                        tokens.fetch_add(1, std::memory_order_acq_rel);
                     }
+                    break;
                 }
+
+                // Account for the token of this waiter, unless it did it itself when it reserved its slot
+                const bool counted = entry.slot->exchange(true, std::memory_order_acq_rel);
+                if (counted) {
+                    --counted_waiters;
+                }
+                if (counted && !owed) {
+                    tokens.fetch_add(1, std::memory_order_acq_rel);
+                }
+                if (!counted && owed) {
+                    tokens.fetch_sub(1, std::memory_order_acq_rel);
+                }
+                out.locks.push_back(make_running_lock());
+                out.waiters.push_back(std::move(entry));
             }
-            for (const auto& h : to_notify) {
-                h->notify();
+
+            // Tell the slow waiters about what is left
+            int free_tokens = tokens.load(std::memory_order_acquire);
+            for (const auto& h : queue) {
+                free_tokens -= h->locked ? 0 : 1;
+                if (free_tokens >= 0 && !h->locked && !h->notified) {
+                    h->notified = true;
+                    out.to_notify.push_back(h);
+                }
             }
+
+            return out;
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
-            WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
-                    Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
+        bool Group::dequeue_waiter(WaitEntry& entry) noexcept {
+            for (auto& bucket : wait_buckets) {
+                if (bucket.try_dequeue(entry)) {
+                    return true;
                 }
             }
-            return {};
+            return false;
+        }
+
+        void Group::Handover::finish() noexcept {
+            for (std::size_t i = 0; i < waiters.size(); ++i) {
+                auto& entry = waiters[i];
+                entry.pool->submit({std::move(entry.task), std::move(locks[i])}, entry.clear_idle, /*force=*/true);
+            }
+            for (const auto& h : to_notify) {
+                h->notify();
+            }
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
             return std::make_unique<RunningLock>(*this, shared_from_this());
         }
 
-        std::unique_ptr<Lock> Group::lock(const NUClear::id_t& task_id,
-                                          const int& priority,
-                                          const std::function<void()>& notify) {
+        std::unique_ptr<Group::GroupLock> Group::lock(const NUClear::id_t& task_id,
+                                                      const int& priority,
+                                                      const std::function<void()>& notify) {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..c8559e6 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -63,26 +63,14 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
+                /// Shared between this waiter's own park_reconcile() and whoever hands it a token.
+                /// True once the waiter's single token decrement has been done, only changed while the
+                /// group mutex is held.
                 std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -146,6 +134,8 @@ namespace threading {
             };
 
         public:
+            class MultiLock;
+
             /**
              * A group lock is the RAII lock object that is used by the Pools to manage the group locking.
              */
@@ -184,12 +174,46 @@ namespace threading {
                 bool lock() override;
 
             private:
+                friend class MultiLock;
+
                 /// The group this lock is for
                 Group& group;
                 /// The shared state between the group object and the lock objects
                 std::shared_ptr<LockHandle> handle;
             };
 
+            /**
+             * Locks several groups, either all of them or none of them.
+             */
+            class MultiLock : public Lock {
+            public:
+                /**
+                 * Construct a new Multi Lock object
+                 *
+                 * @param locks the locks for each of the groups, always listed in the same order of groups
+                 */
+                explicit MultiLock(std::vector<std::unique_ptr<GroupLock>>&& locks);
+                ~MultiLock() override = default;
+
+                MultiLock(const MultiLock&)            = delete;
+                MultiLock(MultiLock&&)                 = delete;
+                MultiLock& operator=(const MultiLock&) = delete;
+                MultiLock& operator=(MultiLock&&)      = delete;
+
+                /**
+                 * Locks all of the groups if each of them has a token for this task, otherwise changes nothing.
+                 *
+                 * @return true if the locks were successfully obtained
+                 */
+                bool lock() override;
+
+            private:
+                /// The locks for each of the groups
+                std::vector<std::unique_ptr<GroupLock>> locks;
+                /// True once all of the groups are locked
+                bool locked{false};
+            };
+
             /**
              * Construct a new Group object
              *
@@ -247,9 +271,9 @@ namespace threading {
              *
              * @return a lock which can be locked once a token is available
              */
-            std::unique_ptr<Lock> lock(const NUClear::id_t& task_id,
-                                       const int& priority,
-                                       const std::function<void()>& notify);
+            std::unique_ptr<GroupLock> lock(const NUClear::id_t& task_id,
+                                            const int& priority,
+                                            const std::function<void()>& notify);
 
             /// The descriptor for this group
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
@@ -260,8 +284,23 @@ namespace threading {
                                                             const bool& clear_idle) noexcept;
             void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
             void release_token() noexcept;
-            void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+
+            /// What has to be done, after the group mutex is released, for those who were given tokens
+            struct Handover {
+                std::vector<WaitEntry> waiters;
+                std::vector<std::unique_ptr<Lock>> locks;
+                std::vector<std::shared_ptr<LockHandle>> to_notify;
+
+                /// Submit the waiters to their pools and notify the slow path
+                void finish() noexcept;
+            };
+
+            /// Share out free tokens to the parked waiters and then the slow path, must hold the mutex
+            Handover hand_over_tokens() noexcept;
+            /// Take a token for a slow path waiter if it is its turn, must hold the mutex
+            bool take_token(const std::shared_ptr<LockHandle>& handle) noexcept;
+            /// Take the next waiter out of the wait buckets, must hold the mutex
+            bool dequeue_waiter(WaitEntry& entry) noexcept;
             std::unique_ptr<Lock> make_running_lock();
 
             /// Available group tokens (signed when waiters are queued on the fast path)
@@ -271,7 +310,10 @@ namespace threading {
             /// Lock-free wait queues keyed by priority
             std::array<queue::TaskQueue<WaitEntry>, queue::PRIORITY_BUCKETS> wait_buckets;
 
-            /// The mutex which protects the slow-path queue
+            /// Number of waiters in the wait buckets that have reserved their token (protected by mutex)
+            int counted_waiters{0};
+
+            /// The mutex which protects the slow-path queue and everything that hands over tokens
             std::mutex mutex;
             /// The queue of tasks for the slow path
             std::vector<std::shared_ptr<LockHandle>> queue;
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 2be9af7..b481615 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -34,7 +34,6 @@
 #include "../../id.hpp"
 #include "../../threading/Reaction.hpp"
 #include "../../threading/ReactionTask.hpp"
-#include "CombinedLock.hpp"
 #include "Group.hpp"
 #include "Lock.hpp"
 #include "Pool.hpp"
@@ -200,9 +199,10 @@ namespace threading {
             }
 
             // Make a lock which waits for all the groups to be unlocked
-            auto lock = std::make_unique<CombinedLock>();
+            std::vector<std::unique_ptr<Group::GroupLock>> locks;
+            locks.reserve(descs.size());
             for (const auto& desc : descs) {
-                lock->add(get_group(desc)->lock(task_id, priority, [pool] {
+                locks.push_back(get_group(desc)->lock(task_id, priority, [pool] {
                     const auto current_pool = Pool::current();
                     const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
                     if (pool != nullptr) {
@@ -211,7 +211,7 @@ namespace threading {
                 }));
             }
 
-            return lock;
+            return std::make_unique<Group::MultiLock>(std::move(locks));
         }
 
         void Scheduler::submit(std::unique_ptr<ReactionTask>&& task) noexcept {
-- 
2.43.0


From 3fdef6e8399d7db2969f7beed6ee4539f206e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 09/52] fix: shutdown must not strand tasks on pools whose
 workers are gone nor wait for a busy consumer

---
 docs/explanation/scheduler.md         |  2 +-
 src/threading/scheduler/Group.cpp     | 29 ++++++++++--
 src/threading/scheduler/Group.hpp     |  9 +++-
 src/threading/scheduler/Pool.cpp      | 67 ++++++++++++++++++---------
 src/threading/scheduler/Pool.hpp      | 19 +++++++-
 src/threading/scheduler/Scheduler.cpp | 27 +++++++++--
 src/threading/scheduler/Scheduler.hpp |  5 ++
 7 files changed, 124 insertions(+), 34 deletions(-)

diff --git a/docs/explanation/scheduler.md b/docs/explanation/scheduler.md
index 3d14a8e..0b85db3 100644
--- a/docs/explanation/scheduler.md
+++ b/docs/explanation/scheduler.md
@@ -268,7 +268,7 @@ When a pool worker finds no runnable task:
 | --------- | -------------------------------------------------------------------------------------------------------------------------------- |
 | `NORMAL`  | Pools stop accepting new work (except **persistent** pools, which keep accepting during shutdown). Workers drain queued tasks.   |
 | `FINAL`   | Used after the main thread exits `start()`; even persistent pools stop once their queues empty.                                  |
-| `FORCE`   | Clears queues and wakes all threads; used for forced test timeouts. MPSC pools require the consumer thread to perform the drain. |
+| `FORCE`   | Clears queues and wakes all threads; used for forced test timeouts. MPSC pools leave the drain to the consumer thread.     |
 
 `Scheduler::start()` starts worker pools first, then blocks in `MainThread::start()`.
 When the main thread pool exits (after shutdown), pools are stopped in order — non-persistent pools before persistent ones — then joined.
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 1a6da82..f93f523 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -123,12 +123,24 @@ namespace threading {
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
         Group::~Group() {
+            discard_waiters();
+        }
+
+        void Group::discard_waiters() {
             // Drain any waiters still parked in the fast-path buckets. WaitEntry holds an
             // ExternalWaiterRegistration that unregisters from the pool on destruction.
-            WaitEntry entry;
-            for (auto& bucket : wait_buckets) {
-                while (bucket.try_dequeue(entry)) {
-                    entry = WaitEntry{};
+            std::vector<WaitEntry> discarded;
+
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                WaitEntry entry;
+                while (dequeue_waiter(entry)) {
+                    // Give back the slot that it had reserved, or keep it from reserving one
+                    if (entry.slot->exchange(true, std::memory_order_acq_rel)) {
+                        --counted_waiters;
+                        tokens.fetch_add(1, std::memory_order_acq_rel);
+                    }
+                    discarded.push_back(std::move(entry));
                 }
             }
         }
@@ -172,7 +184,9 @@ namespace threading {
             }
 
             const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
+            if (slot != nullptr) {
+                park_reconcile(slot);
+            }
             return false;
         }
 
@@ -184,6 +198,11 @@ namespace threading {
             ExternalWaiterRegistration external_waiter;
             if (pool != nullptr) {
                 external_waiter = pool->register_external_waiter();
+
+                // The pool no longer accepts tasks and nobody would be there to run the task and free its token
+                if (!external_waiter) {
+                    return nullptr;
+                }
             }
             wait_buckets[bucket].enqueue(
                 WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index c8559e6..11b77bd 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -59,8 +59,8 @@ namespace threading {
             struct WaitEntry {
                 std::unique_ptr<ReactionTask> task;
                 /// Non-owning pointer; Pools live for the lifetime of the Scheduler and the
-                /// Scheduler tears down Groups before Pools, so it is always safe to dereference
-                /// while this WaitEntry is reachable.
+                /// Scheduler discards the waiters of its Groups before its Pools, so it is always
+                /// safe to dereference while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
                 /// Shared between this waiter's own park_reconcile() and whoever hands it a token.
@@ -275,6 +275,11 @@ namespace threading {
                                             const int& priority,
                                             const std::function<void()>& notify);
 
+            /**
+             * Drop all of the tasks that are parked in this group waiting for a token.
+             */
+            void discard_waiters();
+
             /// The descriptor for this group
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 8f0cb11..c6ab9b7 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -96,10 +96,15 @@ namespace threading {
             active = descriptor->counts_for_idle ? n_threads : 0;
 
             if (descriptor == dsl::word::MainThread::descriptor()) {
+                /*mutex scope*/ {
+                    const std::lock_guard<std::mutex> lock(mutex);
+                    workers = 1;
+                }
                 run();
             }
             else {
                 const std::lock_guard<std::mutex> lock(mutex);
+                workers = n_threads;
                 for (int i = 0; i < n_threads; ++i) {
                     threads.emplace_back(std::make_unique<std::thread>(&Pool::run, this));
                 }
@@ -114,11 +119,11 @@ namespace threading {
                 std::unique_lock<std::mutex> lock(mutex);
 
                 live = true;
-                accept.store(descriptor->persistent, std::memory_order_release);
+                accept.store(accept && descriptor->persistent, std::memory_order_seq_cst);
 
                 switch (type) {
                     case StopType::NORMAL: {
-                        running = descriptor->persistent;
+                        running = running && descriptor->persistent;
                     } break;
                     case StopType::FINAL: {
                         running = false;
@@ -126,13 +131,14 @@ namespace threading {
                     case StopType::FORCE: {
                         // A force stop is terminal even for persistent pools: stop accepting new work so
                         // nothing can repopulate the queues after we drain them and wind the threads down.
-                        accept.store(false, std::memory_order_release);
+                        accept.store(false, std::memory_order_seq_cst);
                         running = false;
 
                         // MPSC buckets permit only one consumer. A cross-thread FORCE stop (e.g.
                         // PowerPlant::shutdown(true) from TestBase's timeout thread against a
                         // MainThread or concurrency-1 pool) must delegate queue draining to that
-                        // worker instead of calling try_dequeue here.
+                        // worker instead of calling try_dequeue here. Don't wait for the worker to do it:
+                        // it may be running a task that itself waits for us.
                         const bool mpsc_consumer_alive =
                             single_consumer && consumer_thread_id != std::thread::id{};
                         const bool on_mpsc_consumer =
@@ -140,15 +146,9 @@ namespace threading {
 
                         if (mpsc_consumer_alive && !on_mpsc_consumer) {
                             discard_queues_requested.store(true, std::memory_order_release);
-                            condition.notify_all();
-                            condition.wait(lock, [this] {
-                                return !discard_queues_requested.load(std::memory_order_acquire);
-                            });
-                            pending_tasks.store(0, std::memory_order_relaxed);
                         }
                         else {
                             drain_queues(drained);
-                            pending_tasks.store(0, std::memory_order_relaxed);
                         }
                     } break;
                 }
@@ -178,8 +178,16 @@ namespace threading {
                 return;
             }
 
+            // Announce the task before making sure that the workers haven't been told to finish in the meantime.
+            // Either they see the announcement and wait for the task, or we see here that they may be gone already.
             const std::size_t bucket = queue::priority_index(task.task->priority);
-            pending_tasks.fetch_add(1, std::memory_order_release);
+            pending_tasks.fetch_add(1, std::memory_order_seq_cst);
+            if (!force && !accept.load(std::memory_order_seq_cst)) {
+                const std::lock_guard<std::mutex> lock(mutex);
+                pending_tasks.fetch_sub(1, std::memory_order_release);
+                condition.notify_all();
+                return;
+            }
             buckets[bucket]->enqueue(std::move(task));
 
             const std::lock_guard<std::mutex> lock(mutex);
@@ -216,7 +224,13 @@ namespace threading {
         }
 
         ExternalWaiterRegistration Pool::register_external_waiter() {
-            external_waiters.fetch_add(1, std::memory_order_acq_rel);
+            // Announce the waiter before making sure that the workers haven't been told to finish in the meantime, for
+            // the same reason as in submit.
+            external_waiters.fetch_add(1, std::memory_order_seq_cst);
+            if (!accept.load(std::memory_order_seq_cst)) {
+                unregister_external_waiter();
+                return ExternalWaiterRegistration{};
+            }
 
             // Fast exit when no idle reaction could ever fire on this pool. This is the common
             // case on a hot Sync-contended chain (the tasks being parked are real work, not idle
@@ -310,24 +324,35 @@ namespace threading {
             return false;
         }
 
-        void Pool::drain_queues(std::vector<Task>& out) const {
+        void Pool::drain_queues(std::vector<Task>& out) {
             Task task;
-            for (const auto& bucket : buckets) {
-                while (bucket->try_dequeue(task)) {
-                    out.push_back(std::move(task));
-                }
+            while (try_dequeue_task(task)) {
+                out.push_back(std::move(task));
             }
         }
 
+        bool Pool::has_work() const {
+            return running || pending_tasks.load(std::memory_order_seq_cst) > 0
+                   || external_waiters.load(std::memory_order_seq_cst) > 0
+                   || discard_queues_requested.load(std::memory_order_acquire);
+        }
+
         Pool::Task Pool::get_task() {
             std::unique_lock<std::mutex> lock(mutex);
-            while (running || pending_tasks.load(std::memory_order_acquire) > 0
-                   || external_waiters.load(std::memory_order_acquire) > 0
-                   || discard_queues_requested.load(std::memory_order_acquire)) {
+            while (true) {
+                if (!has_work()) {
+                    // Nobody comes back for what is submitted to a persistent pool once its last worker has left
+                    if (workers == 1) {
+                        accept.store(false, std::memory_order_seq_cst);
+                    }
+                    if (!has_work()) {
+                        --workers;
+                        break;
+                    }
+                }
                 if (discard_queues_requested.load(std::memory_order_acquire)) {
                     std::vector<Task> discarded;
                     drain_queues(discarded);
-                    pending_tasks.store(0, std::memory_order_relaxed);
                     discard_queues_requested.store(false, std::memory_order_release);
                     condition.notify_all();
                     lock.unlock();
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index b2004fb..999081f 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -61,6 +61,10 @@ namespace threading {
             ExternalWaiterRegistration(const ExternalWaiterRegistration&)            = delete;
             ExternalWaiterRegistration& operator=(const ExternalWaiterRegistration&) = delete;
 
+            explicit operator bool() const noexcept {
+                return pool_ != nullptr;
+            }
+
         private:
             friend class Pool;
             explicit ExternalWaiterRegistration(Pool* pool) noexcept : pool_(pool) {}
@@ -166,7 +170,8 @@ namespace threading {
              * This keeps the pool's workers alive while there are tasks parked in another structure
              * (e.g. a Group's waiter buckets) that point at this pool.
              *
-             * @return A move-only handle that unregisters on destruction
+             * @return A move-only handle that unregisters on destruction, it is empty if this pool is no longer accepting
+             *         tasks and the task must be dropped instead
              */
             ExternalWaiterRegistration register_external_waiter();
 
@@ -241,7 +246,14 @@ namespace threading {
              *
              * @param out the drained tasks (destruction deferred by the caller)
              */
-            void drain_queues(std::vector<Task>& out) const;
+            void drain_queues(std::vector<Task>& out);
+
+            /**
+             * Check if there is anything left to do for the workers of this pool, or there may be in the future.
+             *
+             * @return true if the workers must not finish yet
+             */
+            bool has_work() const;
 
             /**
              * Get an idle task to execute or hold.
@@ -306,6 +318,9 @@ namespace threading {
             /// Atomic so that producers on the fast path can check it without taking the pool mutex.
             std::atomic<bool> accept{true};
 
+            /// The number of threads that have yet to finish running in this thread pool (protected by mutex)
+            int workers{0};
+
             /// The threads which are running in this thread pool
             std::vector<std::unique_ptr<std::thread>> threads;
 
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index b481615..89dfcaa 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -60,6 +60,24 @@ namespace threading {
             if (owning_pool != pools.end()) {
                 Pool::current_pool = nullptr;
             }
+
+            // The tasks left in the pools release their groups when they are destroyed along with their pool, which must
+            // not hand over those groups to a task of a pool that is already destroyed.
+            discard_group_waiters();
+        }
+
+        void Scheduler::discard_group_waiters() {
+            std::vector<std::shared_ptr<Group>> groups_to_clear;
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(groups_mutex);
+                groups_to_clear.reserve(groups.size());
+                for (const auto& group : groups) {
+                    groups_to_clear.push_back(group.second);
+                }
+            }
+            for (const auto& group : groups_to_clear) {
+                group->discard_waiters();
+            }
         }
 
         void Scheduler::start() {
@@ -103,9 +121,12 @@ namespace threading {
         void Scheduler::stop(bool force) {
             running.store(false, std::memory_order_release);
 
-            // Copy pool pointers under the mutex, then stop outside it. Pool::stop(FORCE) on
-            // single-consumer (MPSC) pools may block until that pool's worker drains the queue;
-            // workers can call get_pool() during that drain, which needs pools_mutex.
+            // Copy pool pointers under the mutex, then stop outside it. Pool::stop(FORCE) destroys the
+            // tasks it drains, which can do anything including calls to get_pool() which needs pools_mutex.
+            // A forced stop also drops the tasks which are still waiting for their group.
+            if (force) {
+                discard_group_waiters();
+            }
             std::vector<std::shared_ptr<Pool>> pools_to_stop;
             {
                 const std::lock_guard<std::mutex> lock(pools_mutex);
diff --git a/src/threading/scheduler/Scheduler.hpp b/src/threading/scheduler/Scheduler.hpp
index 3df15af..f5c411c 100644
--- a/src/threading/scheduler/Scheduler.hpp
+++ b/src/threading/scheduler/Scheduler.hpp
@@ -133,6 +133,11 @@ namespace threading {
              */
             std::shared_ptr<Group> get_group(const std::shared_ptr<const util::GroupDescriptor>& desc);
 
+            /**
+             * Drop all of the tasks that are parked in any of the groups waiting for a token.
+             */
+            void discard_group_waiters();
+
             /**
              * Gets a lock object for all the groups listed in the descriptors.
              *
-- 
2.43.0


From 8dd34b72d2e92e51da96c0644ae79261ad2864af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 10/52] fix: free places of a group go to the waiters that can
 use them, in order of priority and age

A task of one group could stay parked behind a task of several groups although the group had places for both, and the
two kinds of waiters were served from separate queues, so that one of them could be passed over forever.
---
 docs/explanation/scheduler.md         |  26 ++-
 src/threading/scheduler/Group.cpp     | 293 ++++++++++----------------
 src/threading/scheduler/Group.hpp     |  73 +++----
 src/threading/scheduler/Pool.hpp      |   2 +-
 src/threading/scheduler/Scheduler.cpp |   2 +-
 src/threading/scheduler/Scheduler.hpp |   2 +-
 6 files changed, 164 insertions(+), 234 deletions(-)

diff --git a/docs/explanation/scheduler.md b/docs/explanation/scheduler.md
index 0b85db3..963f69b 100644
--- a/docs/explanation/scheduler.md
+++ b/docs/explanation/scheduler.md
@@ -82,8 +82,7 @@ A group limits how many tasks sharing the same descriptor may run concurrently.
 Groups maintain:
 
 - A **token counter** (`tokens`) — starts at the group's concurrency; decremented when a task runs, incremented when it finishes.
-- **Fast-path waiter buckets** — lock-free `TaskQueue` instances keyed by priority, holding tasks that could not acquire a token immediately.
-- **Slow-path queue** — mutex-backed sorted list used when a task needs locks on **multiple** groups at once (`CombinedLock`).
+- **A waiting queue** — mutex-protected and sorted by priority and age, holding the tasks that could not acquire a token immediately as well as the locks of the tasks that need **multiple** groups at once (`MultiLock`).
 
 ## Task submission path
 
@@ -112,11 +111,11 @@ sequenceDiagram
             alt token available
                 G->>P: submit with RunningLock
             else
-                G->>G: park in wait bucket
+                G->>G: park in waiting queue
             end
         end
     else multiple groups (slow path)
-        S->>S: CombinedLock over groups
+        S->>S: MultiLock over groups
         S->>P: submit(task, lock)
     end
 ```
@@ -221,23 +220,22 @@ For these, `Group::try_submit()`:
 
 1. Tries to decrement `tokens` with a compare-exchange.
 1. On success, submits to the pool immediately with a `RunningLock` that calls `release_token()` on destruction.
-1. On failure, **parks** the task in priority-ordered waiter buckets via `park_publish()` / `park_reconcile()`.
+1. On failure, **parks** the task in the waiting queue of the group.
 
-The token counter can go **negative** when waiters reserve slots they have not yet consumed.
-This signed counter, combined with per-waiter **arbiter slots** (`atomic<bool>`), ensures no lost wakeups and exact accounting when multiple waiters race with draining threads.
+Nobody takes a token past those who are already waiting: the counter of waiters (`n_waiting`) and the token counter are read after each other's update, so either the one who returns a token sees the waiter or the waiter sees the token.
+As long as nobody waits, tokens are taken and returned without locking anything.
 
-When a running task finishes, `release_token()` increments `tokens` and drains at most one parked waiter into the pool — keeping running count bounded by the group's concurrency.
+When a running task finishes, `release_token()` increments `tokens` and hands the free tokens to the waiters in their order.
 
-### Multi-group slow path
+### Multi-group locks
 
-Tasks bound to multiple groups (`Sync<A>` and `Sync<B>`, etc.) use `CombinedLock`: each group gets a `GroupLock` backed by a mutex-protected sorted queue.
-`slow_pending` on each group prevents fast-path submitters from jumping ahead of older multi-group waiters.
-
-When a `GroupLock` is released, the group may drain a fast-path waiter even if slow-path waiters exist, if the pre-release token count indicates a committed fast waiter is owed a slot — avoiding deadlocks between fast and slow paths.
+Tasks bound to multiple groups (`Sync<A>` and `Sync<B>`, etc.) use `MultiLock`: each group gets a `GroupLock` that waits in the group's queue.
+It takes the tokens of all of its groups or none of them, so it never keeps one group busy while it waits for another one.
+Until it does so, the tokens that it is about to take are reserved for it and are not given to those behind it in the queue.
 
 ### External waiters
 
-When a task is parked in a group's wait buckets (not yet in the pool queue), the destination pool must not go idle as if it had no work.
+When a task is parked in a group's waiting queue (not yet in the pool queue), the destination pool must not go idle as if it had no work.
 `Pool::register_external_waiter()` increments `external_waiters`, keeping workers alive until the parked task is drained or the registration is destroyed.
 
 If idle reactions are registered for that pool (or globally), a `pending_idle` latch ensures one idle epoch fires before the next dequeue — preserving the invariant that parking a non-runnable task triggers idle detection, even if the worker is preempted and a runnable task arrives in the queue before the worker resumes.
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index f93f523..2147b3d 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -23,7 +23,6 @@
 
 #include <algorithm>
 #include <atomic>
-#include <cstddef>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -35,7 +34,6 @@
 #include "../ReactionTask.hpp"
 #include "Lock.hpp"
 #include "Pool.hpp"
-#include "queue/Priority.hpp"
 
 namespace NUClear {
 namespace threading {
@@ -65,15 +63,9 @@ namespace threading {
                 const std::lock_guard<std::mutex> lock(group.mutex);
                 if (handle->locked) {
                     handle->locked = false;
-                    group.tokens.fetch_add(1, std::memory_order_acq_rel);
+                    group.tokens.fetch_add(1);
                 }
-
-                auto it = std::find(group.queue.begin(), group.queue.end(), handle);
-                if (it != group.queue.end()) {
-                    group.queue.erase(it);
-                    group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
-                }
-
+                group.remove_waiter(handle);
                 handover = group.hand_over_tokens();
             }
 
@@ -86,7 +78,11 @@ namespace threading {
             }
 
             const std::lock_guard<std::mutex> lock(group.mutex);
-            return group.take_token(handle);
+            if (group.take_token(handle)) {
+                group.remove_waiter(handle);
+                return true;
+            }
+            return false;
         }
 
         Group::MultiLock::MultiLock(std::vector<std::unique_ptr<GroupLock>>&& locks) : locks(std::move(locks)) {}
@@ -110,145 +106,119 @@ namespace threading {
                     while (it != locks.begin()) {
                         --it;
                         (*it)->handle->locked = false;
-                        (*it)->group.tokens.fetch_add(1, std::memory_order_acq_rel);
+                        (*it)->group.tokens.fetch_add(1);
                     }
                     return false;
                 }
             }
+            for (const auto& l : locks) {
+                l->group.remove_waiter(l->handle);
+            }
             locked = true;
             return true;
         }
 
         Group::Group(std::shared_ptr<const util::GroupDescriptor> descriptor)
-            : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
+            : descriptor(std::move(descriptor))
+            , tokens(this->descriptor->concurrency)
+            , queue([](const std::shared_ptr<LockHandle>& a, const std::shared_ptr<LockHandle>& b) { return *a < *b; }) {}
 
         Group::~Group() {
             discard_waiters();
         }
 
         void Group::discard_waiters() {
-            // Drain any waiters still parked in the fast-path buckets. WaitEntry holds an
-            // ExternalWaiterRegistration that unregisters from the pool on destruction.
-            std::vector<WaitEntry> discarded;
+            // ParkedTask holds an ExternalWaiterRegistration that unregisters from the pool on destruction, which must not
+            // happen while we hold the mutex.
+            std::vector<std::shared_ptr<LockHandle>> discarded;
+            Handover handover;
 
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(mutex);
-                WaitEntry entry;
-                while (dequeue_waiter(entry)) {
-                    // Give back the slot that it had reserved, or keep it from reserving one
-                    if (entry.slot->exchange(true, std::memory_order_acq_rel)) {
-                        --counted_waiters;
-                        tokens.fetch_add(1, std::memory_order_acq_rel);
+                for (const auto& handle : queue) {
+                    if (handle->parked != nullptr) {
+                        discarded.push_back(handle);
                     }
-                    discarded.push_back(std::move(entry));
                 }
+                for (const auto& handle : discarded) {
+                    remove_waiter(handle);
+                }
+                handover = hand_over_tokens();
             }
+
+            handover.finish();
         }
 
         std::unique_ptr<Lock> Group::try_acquire_running_lock() {
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                return nullptr;
-            }
-            int expected = tokens.load(std::memory_order_acquire);
-            while (expected > 0) {
-                if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        // A multi-group waiter slipped in; restore the token and back off.
-                        release_token();
-                        return nullptr;
-                    }
-                    return make_running_lock();
-                }
-            }
-            return nullptr;
+            return take_free_token() ? make_running_lock() : nullptr;
         }
 
         bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
-                    }
-                }
+            if (take_free_token()) {
+                pool->submit({std::move(task), make_running_lock()}, clear_idle);
+                return true;
             }
 
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            if (slot != nullptr) {
-                park_reconcile(slot);
-            }
-            return false;
-        }
+            auto handle    = std::make_shared<LockHandle>(task->id, task->priority, nullptr);
+            handle->parked = std::make_unique<ParkedTask>();
 
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
-            const std::size_t bucket = queue::priority_index(task->priority);
-            ExternalWaiterRegistration external_waiter;
-            if (pool != nullptr) {
-                external_waiter = pool->register_external_waiter();
-
-                // The pool no longer accepts tasks and nobody would be there to run the task and free its token
-                if (!external_waiter) {
-                    return nullptr;
-                }
+            // The destination pool's "pending idle" latch is set by register_external_waiter; that path also notifies one
+            // waiting worker so a pool that is parked on its condition variable can act on the latch immediately.
+            // See Pool::register_external_waiter and Pool::get_task for the full mechanism (it preserves the OLD
+            // scheduler's invariant that a parked waiter always triggered exactly one idle fire on its destination pool,
+            // even when the worker is preempted past the natural idle window).
+            handle->parked->external_waiter = pool->register_external_waiter();
+            if (!handle->parked->external_waiter) {
+                // The pool no longer accepts tasks and nobody would be there to run the task and return its token
+                return false;
             }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
-        }
+            handle->parked->task       = std::move(task);
+            handle->parked->pool       = pool;
+            handle->parked->clear_idle = clear_idle;
 
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
             Handover handover;
 
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(mutex);
+                add_waiter(handle);
 
-                // Someone has already found us in the wait buckets and given us a token
-                if (slot->load(std::memory_order_acquire)) {
-                    return;
-                }
-
-                // A token is free, but a multi-group slow waiter is pending: the slow path has priority.
-                // Stay parked UNCOUNTED until the slow path has cleared. This is what stops a single-group fast submit
-                // from jumping ahead of an older multi-group waiter (see dsl/SyncMulti).
-                if (slow_pending.load(std::memory_order_acquire) == 0 || tokens.load(std::memory_order_acquire) <= 0) {
-                    // Reserve a slot in the signed counter so that nobody can take a token ahead of us on the lock-free
-                    // path, then take part in sharing out whatever is free.
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                    slot->store(true, std::memory_order_release);
-                    ++counted_waiters;
-                    handover = hand_over_tokens();
-                }
+                // Tokens may have been returned before we became visible to those who return them
+                handover = hand_over_tokens();
             }
 
             handover.finish();
+            return false;
+        }
 
-            // The destination pool's "pending idle" latch was set by register_external_waiter
-            // above; that path also notifies one waiting worker so a pool that is parked on its
-            // condition variable can act on the latch immediately. See Pool::register_external_waiter
-            // and Pool::get_task for the full mechanism (it preserves the OLD scheduler's invariant
-            // that a parked waiter always triggered exactly one idle fire on its destination pool,
-            // even when the worker is preempted past the natural idle window).
+        bool Group::take_free_token() noexcept {
+            if (n_waiting.load() > 0) {
+                return false;
+            }
+            int available = tokens.load();
+            while (available > 0) {
+                if (tokens.compare_exchange_weak(available, available - 1)) {
+                    if (n_waiting.load() > 0) {
+                        // Somebody started to wait in the meantime, don't jump ahead of them
+                        release_token();
+                        return false;
+                    }
+                    return true;
+                }
+            }
+            return false;
         }
 
         void Group::release_token() noexcept {
+            // Either those who start to wait see this token or we see here that they are waiting
+            tokens.fetch_add(1);
+            if (n_waiting.load() == 0) {
+                return;
+            }
+
             Handover handover;
 
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(mutex);
-                tokens.fetch_add(1, std::memory_order_acq_rel);
                 handover = hand_over_tokens();
             }
 
@@ -256,19 +226,16 @@ namespace threading {
         }
 
         bool Group::take_token(const std::shared_ptr<LockHandle>& handle) noexcept {
-            // Every unlocked waiter ahead of us needs a token before we do
-            int ahead = 0;
-            for (const auto& h : queue) {
-                if (h == handle) {
-                    break;
-                }
-                ahead += h->locked ? 0 : 1;
+            // Everyone ahead of us needs a token before we do
+            int ahead     = 0;
+            int available = tokens.load();
+            for (auto it = queue.begin(); it != queue.end() && *it != handle && ahead < available; ++it) {
+                ++ahead;
             }
 
-            // The lock-free path may take tokens at the same time
-            int available = tokens.load(std::memory_order_acquire);
+            // Others may be about to return the tokens that they took before they saw that somebody is waiting
             while (available > ahead) {
-                if (tokens.compare_exchange_weak(available, available - 1, std::memory_order_acq_rel)) {
+                if (tokens.compare_exchange_weak(available, available - 1)) {
                     handle->locked = true;
                     return true;
                 }
@@ -282,79 +249,49 @@ namespace threading {
         Group::Handover Group::hand_over_tokens() noexcept {
             Handover out;
 
-            // While the mutex is held tokens == concurrency - running - counted_waiters.
-            // Counted waiters own the slots that become free, even when slow_pending > 0: they committed before any slow
-            // waiter could have taken a token. Uncounted waiters get the rest once no slow waiter wants them.
-            while (true) {
-                const bool owed = counted_waiters > 0;
-                if (owed) {
-                    if (tokens.load(std::memory_order_acquire) + counted_waiters <= 0) {
-                        break;
-                    }
-                }
-                else {
-                    // Take the token first as the lock-free path could take it at any time
-                    int available = tokens.load(std::memory_order_acquire);
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        break;
-                    }
-                    while (available > 0
-                           && !tokens.compare_exchange_weak(available, available - 1, std::memory_order_acq_rel)) {
-                    }
-                    if (available <= 0) {
-                        break;
-                    }
-                }
-
-                WaitEntry entry;
-                if (!dequeue_waiter(entry)) {
-                    if (!owed) {
-                        tokens.fetch_add(1, std::memory_order_acq_rel);
+            // Locks take their tokens themselves, once they can take those of all of their groups. Until then the tokens
+            // that they are going to take are not available to those behind them.
+            int reserved  = 0;
+            int available = tokens.load();
+            for (auto it = queue.begin(); it != queue.end() && available > reserved;) {
+                const auto handle = *it;
+                if (handle->parked == nullptr) {
+                    ++it;
+                    ++reserved;
+                    if (!handle->notified) {
+                        handle->notified = true;
+                        out.to_notify.push_back(handle);
                     }
-                    break;
-                }
-
-                // Account for the token of this waiter, unless it did it itself when it reserved its slot
-                const bool counted = entry.slot->exchange(true, std::memory_order_acq_rel);
-                if (counted) {
-                    --counted_waiters;
-                }
-                if (counted && !owed) {
-                    tokens.fetch_add(1, std::memory_order_acq_rel);
                 }
-                if (!counted && owed) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                out.locks.push_back(make_running_lock());
-                out.waiters.push_back(std::move(entry));
-            }
-
-            // Tell the slow waiters about what is left
-            int free_tokens = tokens.load(std::memory_order_acquire);
-            for (const auto& h : queue) {
-                free_tokens -= h->locked ? 0 : 1;
-                if (free_tokens >= 0 && !h->locked && !h->notified) {
-                    h->notified = true;
-                    out.to_notify.push_back(h);
+                else if (tokens.compare_exchange_weak(available, available - 1)) {
+                    it = queue.erase(it);
+                    n_waiting.fetch_sub(1);
+                    --available;
+                    out.tasks.emplace_back(std::move(handle->parked), make_running_lock());
                 }
             }
 
             return out;
         }
 
-        bool Group::dequeue_waiter(WaitEntry& entry) noexcept {
-            for (auto& bucket : wait_buckets) {
-                if (bucket.try_dequeue(entry)) {
-                    return true;
-                }
+        void Group::add_waiter(const std::shared_ptr<LockHandle>& handle) {
+            queue.insert(handle);
+            n_waiting.fetch_add(1);
+        }
+
+        void Group::remove_waiter(const std::shared_ptr<LockHandle>& handle) noexcept {
+            const auto range = queue.equal_range(handle);
+            const auto it    = std::find(range.first, range.second, handle);
+            if (it != range.second) {
+                queue.erase(it);
+                n_waiting.fetch_sub(1);
             }
-            return false;
         }
 
         void Group::Handover::finish() noexcept {
-            for (std::size_t i = 0; i < waiters.size(); ++i) {
-                auto& entry = waiters[i];
-                entry.pool->submit({std::move(entry.task), std::move(locks[i])}, entry.clear_idle, /*force=*/true);
+            for (auto& task : tasks) {
+                auto& parked = *task.first;
+                parked.pool->submit({std::move(parked.task), std::move(task.second)}, parked.clear_idle, /*force=*/true);
             }
             for (const auto& h : to_notify) {
                 h->notify();
@@ -371,15 +308,13 @@ namespace threading {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
-            slow_pending.fetch_add(1, std::memory_order_acq_rel);
-
             const std::lock_guard<std::mutex> lock(mutex);
-            queue.insert(std::lower_bound(queue.begin(), queue.end(), handle), handle);
+            add_waiter(handle);
 
-            int free = tokens.load(std::memory_order_relaxed);
+            // Those behind us may have to be told again
+            int free = tokens.load();
             for (const auto& h : queue) {
-                free -= h->locked ? 0 : 1;
-                if (free < 0) {
+                if (--free < 0) {
                     h->notified = false;
                 }
             }
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 11b77bd..713f6be 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -22,18 +22,17 @@
 #ifndef NUCLEAR_THREADING_SCHEDULER_GROUP_HPP
 #define NUCLEAR_THREADING_SCHEDULER_GROUP_HPP
 
-#include <array>
 #include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <set>
+#include <utility>
 #include <vector>
 
 #include "../../util/GroupDescriptor.hpp"
 #include "Lock.hpp"
 #include "Pool.hpp"
-#include "queue/Priority.hpp"
-#include "queue/TaskQueue.hpp"
 
 namespace NUClear {
 namespace threading {
@@ -50,23 +49,22 @@ namespace threading {
          * They are identified by having a common group id along with a maximum concurrency.
          * This class holds the structures that manage the group.
          *
-         * Tasks submitted through the scheduler fast path use lock-free waiter buckets.
-         * The lock() API uses a mutex-protected sorted queue for multi-group and unit-test use.
+         * As long as nobody has to wait the tokens of the group are taken and returned without locking anything.
+         * Everyone who has to wait does so in a single mutex-protected queue sorted by priority and age. That is the tasks
+         * of this group only, which are submitted to their pool once they have a token, as well as the locks made by the
+         * lock() API for tasks in multiple groups, which are told when it is worth trying to lock them.
          */
         class Group : public std::enable_shared_from_this<Group> {
 
         private:
-            struct WaitEntry {
+            /// A task that is parked in the group until it is given a token
+            struct ParkedTask {
                 std::unique_ptr<ReactionTask> task;
                 /// Non-owning pointer; Pools live for the lifetime of the Scheduler and the
                 /// Scheduler discards the waiters of its Groups before its Pools, so it is always
-                /// safe to dereference while this WaitEntry is reachable.
+                /// safe to dereference while this entry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Shared between this waiter's own park_reconcile() and whoever hands it a token.
-                /// True once the waiter's single token decrement has been done, only changed while the
-                /// group mutex is held.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
@@ -111,6 +109,8 @@ namespace threading {
                 bool notified{false};
                 /// The function to execute when this lock is able to be locked
                 std::function<void()> notify;
+                /// The task to submit once it has its token, only for tasks that are parked in the group
+                std::unique_ptr<ParkedTask> parked;
             };
 
             /**
@@ -222,8 +222,8 @@ namespace threading {
             explicit Group(std::shared_ptr<const util::GroupDescriptor> descriptor);
 
             /**
-             * Destroy the Group object. Drains any parked waiters in the fast-path buckets so the
-             * `external_waiters` counter on every Pool referenced by a queued WaitEntry is balanced
+             * Destroy the Group object. Discards any parked tasks so the
+             * `external_waiters` counter on every Pool referenced by one of them is balanced
              * back to zero; otherwise a Pool worker could spin forever in `get_task()` waiting for
              * waiters that will never be drained.
              */
@@ -242,7 +242,7 @@ namespace threading {
             std::unique_ptr<Lock> try_acquire_running_lock();
 
             /**
-             * Try to submit a task through the lock-free fast path.
+             * Submit a task that only needs a token of this group.
              *
              * If a group token is available the task is submitted to the pool immediately.
              * Otherwise the task is queued until a token is released.
@@ -284,44 +284,41 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
-            void release_token() noexcept;
-
             /// What has to be done, after the group mutex is released, for those who were given tokens
             struct Handover {
-                std::vector<WaitEntry> waiters;
-                std::vector<std::unique_ptr<Lock>> locks;
+                std::vector<std::pair<std::unique_ptr<ParkedTask>, std::unique_ptr<Lock>>> tasks;
                 std::vector<std::shared_ptr<LockHandle>> to_notify;
 
-                /// Submit the waiters to their pools and notify the slow path
+                /// Submit the tasks to their pools and notify the locks
                 void finish() noexcept;
             };
 
-            /// Share out free tokens to the parked waiters and then the slow path, must hold the mutex
+            using Queue = std::multiset<std::shared_ptr<LockHandle>, bool (*)(const std::shared_ptr<LockHandle>&,
+                                                                              const std::shared_ptr<LockHandle>&)>;
+
+            /// Take a token without waiting for it, unless somebody else is already waiting
+            bool take_free_token() noexcept;
+            /// Return a token and hand it to whoever is waiting for it
+            void release_token() noexcept;
+            /// Share out free tokens to the waiters in their order, must hold the mutex
             Handover hand_over_tokens() noexcept;
-            /// Take a token for a slow path waiter if it is its turn, must hold the mutex
+            /// Take a token for a waiter if it is its turn, must hold the mutex
             bool take_token(const std::shared_ptr<LockHandle>& handle) noexcept;
-            /// Take the next waiter out of the wait buckets, must hold the mutex
-            bool dequeue_waiter(WaitEntry& entry) noexcept;
+            /// Add a waiter to the queue, must hold the mutex
+            void add_waiter(const std::shared_ptr<LockHandle>& handle);
+            /// Remove a waiter from the queue if it is still in there, must hold the mutex
+            void remove_waiter(const std::shared_ptr<LockHandle>& handle) noexcept;
             std::unique_ptr<Lock> make_running_lock();
 
-            /// Available group tokens (signed when waiters are queued on the fast path)
+            /// Available group tokens
             std::atomic<int> tokens;
-            /// Number of unsatisfied slow-path waiters
-            std::atomic<int> slow_pending{0};
-            /// Lock-free wait queues keyed by priority
-            std::array<queue::TaskQueue<WaitEntry>, queue::PRIORITY_BUCKETS> wait_buckets;
-
-            /// Number of waiters in the wait buckets that have reserved their token (protected by mutex)
-            int counted_waiters{0};
+            /// The number of waiters in the queue, nobody may take a token without queuing unless it is zero
+            std::atomic<int> n_waiting{0};
 
-            /// The mutex which protects the slow-path queue and everything that hands over tokens
+            /// The mutex which protects the queue and everything that hands over tokens
             std::mutex mutex;
-            /// The queue of tasks for the slow path
-            std::vector<std::shared_ptr<LockHandle>> queue;
+            /// Everyone who is waiting for a token
+            Queue queue;
         };
 
     }  // namespace scheduler
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index 999081f..faf7d98 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -168,7 +168,7 @@ namespace threading {
              * Register that a task is in flight outside the pool but will eventually be submitted to it.
              *
              * This keeps the pool's workers alive while there are tasks parked in another structure
-             * (e.g. a Group's waiter buckets) that point at this pool.
+             * (e.g. a Group's waiting queue) that point at this pool.
              *
              * @return A move-only handle that unregisters on destruction, it is empty if this pool is no longer accepting
              *         tasks and the task must be dropped instead
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 89dfcaa..e180387 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -277,7 +277,7 @@ namespace threading {
             const auto current_pool = Pool::current();
             const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
 
-            // Fast path for a single group: lock-free token acquisition and waiter buckets
+            // Fast path for a single group: lock-free token acquisition and parking in the group
             if (task->group_descriptors.size() == 1) {
                 const auto& group = get_group(*task->group_descriptors.begin());
 
diff --git a/src/threading/scheduler/Scheduler.hpp b/src/threading/scheduler/Scheduler.hpp
index f5c411c..665d50c 100644
--- a/src/threading/scheduler/Scheduler.hpp
+++ b/src/threading/scheduler/Scheduler.hpp
@@ -160,7 +160,7 @@ namespace threading {
             std::atomic<bool> running{true};
 
             // NB: `pools` is declared before `groups` so that on Scheduler destruction the groups
-            // (which may hold non-owning Pool* in their waiter buckets) are destroyed first, then
+            // (which may hold non-owning Pool* in their waiting queue) are destroyed first, then
             // the pools. This keeps the raw pointers in WaitEntry safe-by-construction.
 
             /// A mutex for when we are modifying pools
-- 
2.43.0


From 0354e0215bbf79dcfaad3b8d76230645fe3a556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:55 +0000
Subject: [PATCH 11/52] fix: a queue consumer must not report empty from a
 stale view of the write position

---
 src/threading/scheduler/queue/TaskQueue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index b07fe11..4fb1610 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -161,8 +161,9 @@ namespace threading {
                             else {
                                 Block* next = block->next.load(std::memory_order_acquire);
                                 if (next == nullptr) {
-                                    // Producer may still be writing the first slot of an empty-looking block.
-                                    if (published == 0 && block->write.load(std::memory_order_acquire) > 0) {
+                                    // Items may have been added since we looked at write, in which case the block
+                                    // only looks empty because other consumers got further than our view of it.
+                                    if (std::min(block->write.load(std::memory_order_acquire), BLOCK_SIZE) > published) {
                                         std::this_thread::yield();
                                     }
                                     else {
-- 
2.43.0


From 10979081ec1a0c95b9b1f2947174cb972bfaf31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 12/52] fix: concurrent emits must not race on the history kept
 for Last

---
 src/util/CallbackGenerator.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 9672046..452861c 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 #define NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 
+#include <mutex>
 #include <type_traits>
 
 #include "../dsl/word/emit/Inline.hpp"
@@ -62,9 +63,12 @@ namespace util {
                               const Sequence<DIndex...>& /*d*/,
                               const Sequence<Index...>& /*i*/) {
 
+            // The transients are shared by every thread that triggers this reaction
+            const std::lock_guard<std::mutex> lock(transients->mutex);
+
             // Merge our transient data
             unpack(MergeTransients<std::remove_reference_t<decltype(std::get<DIndex>(data))>>::merge(
-                std::get<Index>(*transients),
+                std::get<Index>(transients->data),
                 std::get<DIndex>(data))...);
         }
 
@@ -164,8 +168,12 @@ namespace util {
         }
 
         Function callback;
-        std::shared_ptr<typename TransientDataElements<DSL>::type> transients{
-            std::make_shared<typename TransientDataElements<DSL>::type>()};
+
+        struct Transients {
+            std::mutex mutex;
+            typename TransientDataElements<DSL>::type data;
+        };
+        std::shared_ptr<Transients> transients{std::make_shared<Transients>()};
     };
 
 }  // namespace util
-- 
2.43.0


From 5f11cb36867df84aeb7d26c9727e904a0c47041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:20 +0000
Subject: [PATCH 13/52] fix: chrono tasks run without holding the lock so that
 what they run inline may use timers

---
 src/extension/ChronoController.cpp | 45 ++++++++++++++++++++++--------
 src/extension/ChronoController.hpp | 15 ++++++++++
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b42859b..c6aab0e 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -91,6 +91,10 @@ namespace extension {
                     tasks.erase(it);
                     std::make_heap(tasks.begin(), tasks.end(), std::greater<>());
                 }
+                // If it is being run right now then do not put it back in the list afterwards
+                else if (current != nullptr && current->id == unbind.id) {
+                    current->unbound = true;
+                }
 
                 // Poke the system to make sure it's not waiting on something that's gone
                 wait.notify_all();
@@ -115,12 +119,18 @@ namespace extension {
                     for (auto& task : tasks) {
                         task.time += adjustment;
                     }
+                    if (current != nullptr) {
+                        current->adjustment += adjustment;
+                    }
 
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
-                    const clock::time_point nearest =
+                    clock::time_point nearest =
                         tasks.empty() ? travel.target
                                       : std::min(travel.target, std::min_element(tasks.begin(), tasks.end())->time);
+                    if (current != nullptr) {
+                        nearest = std::min(nearest, current->time);
+                    }
                     clock::set_clock(nearest, travel.rtf);
                 } break;
             }
@@ -145,20 +155,33 @@ namespace extension {
                     auto target = tasks.front().time;
 
                     if (target <= start) {
-                        // Run our task and if it returns false remove it
-                        const bool renew = tasks.front()();
-
-                        // Move this to the back of the list
+                        // Take the task out of the list
                         std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
+                        ChronoTask task = std::move(tasks.back());
+                        tasks.pop_back();
+
+                        // Run it without holding the lock as reactions that run inline in it may use the chrono system
+                        CurrentTask info(task.id, task.time);
+                        current = &info;
+                        lock.unlock();
+                        bool renew = false;
+                        try {
+                            renew = task();
+                        }
+                        catch (...) {
+                            lock.lock();
+                            current = nullptr;
+                            throw;
+                        }
+                        lock.lock();
+                        current = nullptr;
 
-                        if (renew) {
-                            // Put the item back in the list
+                        // If it wants to run again put it back in the list
+                        if (renew && !info.unbound) {
+                            task.time += info.adjustment;
+                            tasks.push_back(std::move(task));
                             std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
                         }
-                        else {
-                            // Remove the item from the list
-                            tasks.pop_back();
-                        }
                     }
                     else {
                         const NUClear::clock::duration time_until_task =
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index e3954f6..3f09fcd 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -37,8 +37,23 @@ namespace extension {
         explicit ChronoController(std::unique_ptr<NUClear::Environment> environment);
 
     private:
+        /// Information about the task that is being run, which is not in the list of tasks while it runs
+        struct CurrentTask {
+            CurrentTask(const NUClear::id_t& id, const NUClear::clock::time_point& time) : id(id), time(time) {}
+            /// The id of the task
+            NUClear::id_t id;
+            /// The time that the task was to run at
+            NUClear::clock::time_point time;
+            /// How far the task has been moved in time while it was running
+            NUClear::clock::duration adjustment{0};
+            /// If the task was unbound while it was running
+            bool unbound{false};
+        };
+
         /// The list of tasks we need to process
         std::vector<dsl::operation::ChronoTask> tasks;
+        /// The task that is currently being run or nullptr if no task is being run
+        CurrentTask* current{nullptr};
         /// The mutex we use to lock the task list
         std::mutex mutex;
         /// The condition variable we use to wait on
-- 
2.43.0


From 01e9b15bd5db98941835323401f3d53bd8048fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:20 +0000
Subject: [PATCH 14/52] fix: shutdown must not wait for the next timer when it
 arrives before the chrono thread waits

---
 src/extension/ChronoController.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index c6aab0e..b8f028f 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -146,6 +146,11 @@ namespace extension {
                 // Acquire the mutex lock so we can wait on it
                 std::unique_lock<std::mutex> lock(mutex);
 
+                // We may have been told to stop before we got the lock, in which case nothing would wake us again
+                if (!running.load(std::memory_order_acquire)) {
+                    break;
+                }
+
                 // If we have no chrono tasks wait until we are notified
                 if (tasks.empty()) {
                     wait.wait(lock, [this] { return !running.load(std::memory_order_acquire) || !tasks.empty(); });
-- 
2.43.0


From 97e7d5c833962f652984a3676642c33bfd3cc898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:10 +0000
Subject: [PATCH 15/52] fix: being woken by time travel says nothing about how
 late the chrono thread wakes up

---
 src/extension/ChronoController.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b8f028f..0ba9a76 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -198,12 +198,12 @@ namespace extension {
                         }
                         else if (time_until_task > cv_accuracy) {  // A long time in the future
                             // Wait on the cv
-                            wait.wait_for(lock, time_until_task - cv_accuracy);
+                            const auto status = wait.wait_for(lock, time_until_task - cv_accuracy);
 
-                            // Update the accuracy of our cv wait
+                            // Update the accuracy of our cv wait, but not if we were woken up (e.g. by time travel)
                             const auto end   = NUClear::clock::now();
                             const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
-                            if (error.count() > 0) {                          // only if we were late
+                            if (status == std::cv_status::timeout && error.count() > 0) {  // only if we were late
                                 cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
                             }
                         }
-- 
2.43.0


From 56df2ccc0b6c6fafab2c3a097d780c974f0b204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:10 +0000
Subject: [PATCH 16/52] fix: a watchdog that fires late must not fire again
 before another period has passed

---
 src/dsl/word/Watchdog.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index f2b2ac7..dffc36c 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_DSL_WORD_WATCHDOG_HPP
 #define NUCLEAR_DSL_WORD_WATCHDOG_HPP
 
+#include <algorithm>
 #include <mutex>
 #include <stdexcept>
 
@@ -330,8 +331,8 @@ namespace dsl {
                     // Submit the reaction to the thread pool
                     reaction->reactor.powerplant.submit(reaction->get_task());
 
-                    // Now automatically service the watchdog
-                    time += period(ticks);
+                    // Now automatically service the watchdog, it was due a period after it was last serviced
+                    time = std::max(time, service_time + period(ticks)) + period(ticks);
                 }
                 // Change our wait time to our new watchdog time
                 else {
-- 
2.43.0


From 4613142007d40b1b72cdf109e7ca650f20838cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:25 +0000
Subject: [PATCH 17/52] fix: unbinding a watchdog must not take away the
 service time that others of its key use

---
 src/dsl/word/Watchdog.hpp | 44 ++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index dffc36c..5ed8013 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -24,7 +24,9 @@
 #define NUCLEAR_DSL_WORD_WATCHDOG_HPP
 
 #include <algorithm>
+#include <map>
 #include <mutex>
+#include <set>
 #include <stdexcept>
 
 #include "../../threading/Reaction.hpp"
@@ -51,8 +53,14 @@ namespace dsl {
          */
         template <typename WatchdogGroup, typename RuntimeType = void>
         struct WatchdogDataStore {
-            using MapType       = std::remove_cv_t<RuntimeType>;
-            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, NUClear::clock::time_point>>;
+            using MapType = std::remove_cv_t<RuntimeType>;
+
+            /// The last time a watchdog was serviced and the reactions that are using it
+            struct Service {
+                NUClear::clock::time_point time;
+                std::set<NUClear::id_t> reactions;
+            };
+            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, Service>>;
 
             /**
              * Mutex protecting structural and value updates to the underlying map for this
@@ -69,16 +77,18 @@ namespace dsl {
             /**
              * Ensures the data store is initialised correctly.
              *
-             * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
+             * @param data     The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
+             * @param reaction The id of the reaction which is going to use this data
              */
-            static void init(const RuntimeType& data) {
+            static void init(const RuntimeType& data, const NUClear::id_t& reaction) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<std::map<MapType, NUClear::clock::time_point>>());
+                    WatchdogStore::set(std::make_shared<std::map<MapType, Service>>());
                 }
                 if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, NUClear::clock::now()});
+                    WatchdogStore::get()->insert({data, Service{NUClear::clock::now(), {}}});
                 }
+                WatchdogStore::get()->at(data).reactions.insert(reaction);
             }
 
             /**
@@ -96,7 +106,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data);
+                return WatchdogStore::get()->at(data).time;
             }
 
             /**
@@ -112,18 +122,22 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data) = when;
+                WatchdogStore::get()->at(data).time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog
+             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog once no reaction uses it
              *
-             * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
+             * @param data     The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
+             * @param reaction The id of the reaction which is no longer using this data
              */
-            static void unbind(const RuntimeType& data) {
+            static void unbind(const RuntimeType& data, const NUClear::id_t& reaction) {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get()->erase(data);
+                if (WatchdogStore::get() != nullptr && WatchdogStore::get()->count(data) != 0) {
+                    WatchdogStore::get()->at(data).reactions.erase(reaction);
+                    if (WatchdogStore::get()->at(data).reactions.empty()) {
+                        WatchdogStore::get()->erase(data);
+                    }
                 }
             }
         };
@@ -267,12 +281,12 @@ namespace dsl {
             static void bind(const std::shared_ptr<threading::Reaction>& reaction, const RuntimeType& data) {
 
                 // Make sure the store is initialised
-                WatchdogDataStore<WatchdogGroup, RuntimeType>::init(data);
+                WatchdogDataStore<WatchdogGroup, RuntimeType>::init(data, reaction->id);
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([data](const threading::Reaction& r) {
                     // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
+                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data, r.id);
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
                 });
 
-- 
2.43.0


From b1eb9e2e133a891596fb74a03d799a084342ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 18/52] fix: how late the chrono thread wakes up is measured on
 the base clock, which time travel does not move

---
 src/extension/ChronoController.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index 0ba9a76..e383765 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -198,24 +198,25 @@ namespace extension {
                         }
                         else if (time_until_task > cv_accuracy) {  // A long time in the future
                             // Wait on the cv
-                            const auto status = wait.wait_for(lock, time_until_task - cv_accuracy);
+                            const NUClear::clock::duration wait_time = time_until_task - cv_accuracy;
+                            const auto wait_start                    = NUClear::base_clock::now();
+                            wait.wait_for(lock, wait_time);
 
-                            // Update the accuracy of our cv wait, but not if we were woken up (e.g. by time travel)
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
-                            if (status == std::cv_status::timeout && error.count() > 0) {  // only if we were late
+                            // Update the accuracy of our cv wait using the base clock as ours may have been moved
+                            const NUClear::clock::duration error = NUClear::base_clock::now() - wait_start - wait_time;
+                            if (error.count() > 0) {  // only if we were late
                                 cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
                             }
                         }
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
                             // Wait on nanosleep
                             const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            const auto sleep_start                    = NUClear::base_clock::now();
                             util::precise_sleep(sleep_time);
 
-                            // Update the accuracy of our precise sleep
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - ns_accuracy);  // when ended - when wanted to end
-                            if (error.count() > 0) {                          // only if we were late
+                            // Update the accuracy of our precise sleep using the base clock as ours may have been moved
+                            const NUClear::clock::duration error = NUClear::base_clock::now() - sleep_start - sleep_time;
+                            if (error.count() > 0) {  // only if we were late
                                 ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
                             }
                         }
-- 
2.43.0


From ca5f9afc76339083c1e8473bcbd213b609a6f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 19/52] fix: relative time travel moves when watchdogs were
 last serviced along with the timers

---
 src/dsl/operation/ChronoTask.hpp   | 14 ++++++++++++++
 src/dsl/word/Watchdog.hpp          | 22 ++++++++++++++++------
 src/extension/ChronoController.cpp |  1 +
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/dsl/operation/ChronoTask.hpp b/src/dsl/operation/ChronoTask.hpp
index 60fe87a..657c421 100644
--- a/src/dsl/operation/ChronoTask.hpp
+++ b/src/dsl/operation/ChronoTask.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_DSL_OPERATION_CHRONO_TASK_HPP
 #define NUCLEAR_DSL_OPERATION_CHRONO_TASK_HPP
 
+#include <atomic>
 #include <functional>
 
 #include "../../clock.hpp"
@@ -64,6 +65,19 @@ namespace dsl {
                 return task(time);
             }
 
+            /**
+             * How far relative time travel has moved the chrono tasks in total.
+             *
+             * Times which are held elsewhere but have to keep their distance to the time of a task (e.g. when a
+             * watchdog was last serviced) are to be held relative to this.
+             *
+             * @return the total distance as a reference so that it can be updated
+             */
+            static std::atomic<NUClear::clock::rep>& total_moved() {
+                static std::atomic<NUClear::clock::rep> total{0};
+                return total;
+            }
+
             /**
              * Compares tasks in order of soonest to execute first.
              *
diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index 5ed8013..851d7e6 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -74,6 +74,11 @@ namespace dsl {
                 return m;
             }
 
+            /// How far relative time travel has moved the timers, service times are held relative to this to move too
+            static NUClear::clock::duration moved() {
+                return NUClear::clock::duration(operation::ChronoTask::total_moved().load());
+            }
+
             /**
              * Ensures the data store is initialised correctly.
              *
@@ -86,7 +91,7 @@ namespace dsl {
                     WatchdogStore::set(std::make_shared<std::map<MapType, Service>>());
                 }
                 if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, Service{NUClear::clock::now(), {}}});
+                    WatchdogStore::get()->insert({data, Service{NUClear::clock::now() - moved(), {}}});
                 }
                 WatchdogStore::get()->at(data).reactions.insert(reaction);
             }
@@ -106,7 +111,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data).time;
+                return WatchdogStore::get()->at(data).time + moved();
             }
 
             /**
@@ -122,7 +127,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data).time = when;
+                WatchdogStore::get()->at(data).time = when - moved();
             }
 
             /**
@@ -161,13 +166,18 @@ namespace dsl {
                 return m;
             }
 
+            /// How far relative time travel has moved the timers, service times are held relative to this to move too
+            static NUClear::clock::duration moved() {
+                return NUClear::clock::duration(operation::ChronoTask::total_moved().load());
+            }
+
             /**
              * Ensures the data store is initialised correctly.
              */
             static void init() {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<NUClear::clock::time_point>(NUClear::clock::now()));
+                    WatchdogStore::set(std::make_shared<NUClear::clock::time_point>(NUClear::clock::now() - moved()));
                 }
             }
 
@@ -183,7 +193,7 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return *WatchdogStore::get();
+                return *WatchdogStore::get() + moved();
             }
 
             /**
@@ -195,7 +205,7 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                *WatchdogStore::get() = when;
+                *WatchdogStore::get() = when - moved();
             }
 
             /**
diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index e383765..336de4a 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -122,6 +122,7 @@ namespace extension {
                     if (current != nullptr) {
                         current->adjustment += adjustment;
                     }
+                    ChronoTask::total_moved() += adjustment.count();
 
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
-- 
2.43.0


From 346dd3673211a7ac354fbd4bfc44dac68a39a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 20/52] fix: a watchdog which is due exactly now fires rather
 than being checked again without end

---
 src/dsl/word/Watchdog.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index 851d7e6..eee6e6d 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -351,7 +351,7 @@ namespace dsl {
                                     NUClear::clock::time_point& time) {
 
                 // Check if our watchdog has timed out
-                if (NUClear::clock::now() > (service_time + period(ticks))) {
+                if (NUClear::clock::now() >= (service_time + period(ticks))) {
                     // Submit the reaction to the thread pool
                     reaction->reactor.powerplant.submit(reaction->get_task());
 
-- 
2.43.0


From aa184f0fcfd1284e57d03b2456f71dea1496daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:28 +0000
Subject: [PATCH 21/52] fix: a log level that is not const must be taken as the
 level of the message

---
 src/PowerPlant.hpp | 11 ++++++++---
 src/Reactor.hpp    | 14 +++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index afcf9d9..40035b8 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -337,10 +337,15 @@ void log(Arguments&&... args) {
         PowerPlant::powerplant->log<level>(std::forward<Arguments>(args)...);
     }
 }
-template <typename... Arguments>
-void log(const LogLevel& level, Arguments&&... args) {
+template <typename Level,
+          typename... Arguments,
+          std::enable_if_t<std::is_same<std::decay_t<Level>, LogLevel>::value
+                               || std::is_same<std::decay_t<Level>, LogLevel::Value>::value,
+                           bool> = true>
+void log(Level&& level, Arguments&&... args) {
     if (PowerPlant::powerplant != nullptr) {
-        PowerPlant::powerplant->log(level, std::forward<Arguments>(args)...);
+        // However the level is passed this must be preferred to taking it as the first argument of the message
+        PowerPlant::powerplant->log(LogLevel(level), std::forward<Arguments>(args)...);
     }
 }
 
diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index f90a464..1d31b70 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -29,6 +29,7 @@
 #include <regex>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -477,13 +478,20 @@ public:
      *
      * Logs a message through the system so the various log handlers can access it.
      *
+     * @tparam Level     The type of the level, either a LogLevel or a LogLevel::Value
      * @tparam Arguments The types of the arguments we are logging
      *
-     * @param level The level to log at
+     * @param log_at The level to log at
      * @param args The arguments we are logging
      */
-    template <typename... Arguments>
-    void log(const LogLevel& level, Arguments&&... args) const {
+    template <typename Level,
+              typename... Arguments,
+              std::enable_if_t<std::is_same<std::decay_t<Level>, LogLevel>::value
+                                   || std::is_same<std::decay_t<Level>, LogLevel::Value>::value,
+                               bool> = true>
+    void log(Level&& log_at, Arguments&&... args) const {
+        // However the level is passed this must be preferred to taking it as the first argument of the message
+        const LogLevel level(log_at);
         // Short circuit here before going to the more expensive log function
         if (level >= min_log_level || level >= log_level) {
             powerplant.log(this, level, std::forward<Arguments>(args)...);
-- 
2.43.0


From c16e5d060cb586f3ae0e50107b56017e851a8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 22/52] fix: a configured network starts announcing itself

---
 src/extension/NetworkController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 56158ee..46ba172 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -163,6 +163,9 @@ namespace extension {
             for (auto& fd : network.listen_fds()) {
                 listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
             }
+
+            // Process the network now so that we announce ourselves and keep doing so from here
+            emit(std::make_unique<ProcessNetwork>());
         });
     }
 
-- 
2.43.0


From 9a5a230a3c449813bf7e36779aff200b39cd744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 23/52] fix: keep announcing after an announcement failed or
 the network was reset

---
 src/extension/network/NUClearNetwork.cpp | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 11839da..73e03c3 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -349,6 +349,9 @@ namespace extension {
             const std::lock_guard<std::mutex> target_lock(target_mutex, std::adopt_lock);
             const std::lock_guard<std::mutex> send_lock(send_queue_mutex, std::adopt_lock);
 
+            // We are a new node on the network so announce ourselves the next time we process
+            last_announce = std::chrono::steady_clock::time_point(std::chrono::seconds(0));
+
             // Clear all our data structures
             send_queue.clear();
             name_target.clear();
@@ -418,18 +421,22 @@ namespace extension {
             auto now = std::chrono::steady_clock::now();
 
             // Check if we should announce now
-            if (now - last_announce > std::chrono::milliseconds(500)) {
+            const bool announce_due = now - last_announce >= std::chrono::milliseconds(500);
+            if (announce_due) {
                 last_announce = now;
-                announce();
+            }
 
-                // Update our event timer
-                auto next_announce = now + std::chrono::milliseconds(500);
-                if (next_announce > next_event) {
-                    next_event = next_announce;
+            // Update our event timer (before we announce, as if that throws we still need to try again later)
+            auto next_announce = last_announce + std::chrono::milliseconds(500);
+            if (next_announce > next_event && (announce_due || next_event <= now)) {
+                next_event = next_announce;
 
-                    // Let the system know when we need attention again
-                    next_event_callback(next_event);
-                }
+                // Let the system know when we need attention again
+                next_event_callback(next_event);
+            }
+
+            if (announce_due) {
+                announce();
             }
 
             // We need to make this list outside mutex scope in case the callback needs the mutex
-- 
2.43.0


From 3fc9a8f5a784b57c0761ea3a358bfb21254bc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 24/52] fix: the announced name is null terminated after a
 reset to a shorter name

---
 src/extension/network/NUClearNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 73e03c3..6b8bffa 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -398,7 +398,7 @@ namespace extension {
             packet_data_mtu -= 8;   // Size of a UDP packet header
 
             // Build our announce packet
-            announce_packet.resize(sizeof(AnnouncePacket) + name.size(), 0);
+            announce_packet.assign(sizeof(AnnouncePacket) + name.size(), 0);
             AnnouncePacket& pkt = *reinterpret_cast<AnnouncePacket*>(announce_packet.data());
             pkt                 = AnnouncePacket();
             std::memcpy(&pkt.name, name.c_str(), name.size());
-- 
2.43.0


From 6e51672cec5c924821399d58d4dc25e91b7a58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 25/52] fix: a reliable message with a multiple of eight
 packets can be fully acknowledged

---
 src/extension/network/NUClearNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 6b8bffa..6534021 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -937,9 +937,9 @@ namespace extension {
                                         s->acked[i] |= (&packet.packets)[i];
 
                                         // Work out what a "fully acked" packet would look like
-                                        const uint8_t expected = i + 1 < s->acked.size() || packet.packet_count % 8 == 0
-                                                                     ? 0xFF
-                                                                     : 0xFF >> (8 - (packet.packet_count % 8));
+                                        // The last byte holds the remaining packets (none for a multiple of 8)
+                                        const uint8_t expected =
+                                            i + 1 < s->acked.size() ? 0xFF : (1 << (packet.packet_count % 8)) - 1;
 
                                         all_acked = all_acked && ((s->acked[i] & expected) == expected);
                                     }
-- 
2.43.0


From d07b575f7198dca9c21439ed27435c20e6934743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 26/52] fix: resend exactly the packets a NACK asks for and do
 not write past the end of one

---
 src/extension/network/NUClearNetwork.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 6534021..62f6de3 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -783,7 +783,9 @@ namespace extension {
 
                                         // Set the bits for the packets we thought we received
                                         for (const auto& p : assembler.second) {
-                                            (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            if (p.first < packet.packet_count) {
+                                                (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            }
                                         }
 
                                         // Ensure the bit for this packet isn't NACKed
@@ -969,6 +971,9 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
+                            // lock the send queue mutex
+                            const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
+
                             // Check for our packet id in the send queue
                             if (send_queue.count(packet.packet_id) > 0) {
 
@@ -1008,11 +1013,11 @@ namespace extension {
                                     }
 
                                     // Now we have to retransmit the nacked packets
-                                    for (uint16_t i = 0; i < packet.packet_count * 8; ++i) {
+                                    for (uint16_t i = 0; i < packet.packet_count; ++i) {
 
                                         // Check if this packet needs to be sent
                                         const uint8_t bit = 1 << (i % 8);
-                                        if (((&packet.packets)[i] & bit) == bit) {
+                                        if (((&packet.packets)[i / 8] & bit) == bit) {
                                             send_packet(remote->target, queue.header, i, queue.payload, true);
                                         }
                                     }
-- 
2.43.0


From 13900355b6d97b2927dcdc4b7a798cf46bb47aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 27/52] fix: read whole network packets of any size including
 empty ones and never wait for one

---
 src/extension/network/NUClearNetwork.cpp | 62 +++++++++++++-----------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 62f6de3..50ea0f2 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <functional>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <mutex>
 #include <stdexcept>
@@ -51,22 +52,30 @@ namespace extension {
         namespace {  // Anonymous namespace for internal linkage
 
             /**
-             * Read a single packet from the given udp file descriptor.
+             * Read a single packet from the given udp file descriptor without waiting for one to arrive.
              *
-             * @param fd The file descriptor to read from
+             * @param fd      The file descriptor to read from
+             * @param from    Set to the address the packet was sent from
+             * @param payload Set to the data in the packet
              *
-             * @return The data and who it was sent from
+             * @return True if there was a packet to read
              */
-            std::pair<util::network::sock_t, std::vector<uint8_t>> read_socket(fd_t fd) {
+            bool read_socket(fd_t fd, util::network::sock_t& from, std::vector<uint8_t>& payload) {
+
+#ifdef _WIN32
+                // There is no MSG_DONTWAIT on windows so ensure that there is something to read
+                unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
+                ioctl(fd, FIONREAD, &count);
+                if (count == 0) {
+                    return false;
+                }
+#endif
 
-                // Allocate a vector that can hold a datagram
-                std::vector<uint8_t> payload(1500);
+                // A buffer that can hold the largest datagram
+                std::array<uint8_t, std::numeric_limits<uint16_t>::max()> buffer;
                 iovec iov{};
-                iov.iov_base = reinterpret_cast<char*>(payload.data());
-                iov.iov_len  = static_cast<decltype(iov.iov_len)>(payload.size());
-
-                // Who we are receiving from
-                util::network::sock_t from{};
+                iov.iov_base = reinterpret_cast<char*>(buffer.data());
+                iov.iov_len  = static_cast<decltype(iov.iov_len)>(buffer.size());
 
                 // Setup our message header to receive
                 msghdr mh{};
@@ -76,10 +85,13 @@ namespace extension {
                 mh.msg_iovlen  = 1;
 
                 // Now read the data for real
-                const ssize_t received = recvmsg(fd, &mh, 0);
-                payload.resize(received);
+                const ssize_t received = recvmsg(fd, &mh, MSG_DONTWAIT);
+                if (received < 0) {
+                    return false;
+                }
 
-                return {from, std::move(payload)};
+                payload.assign(buffer.begin(), std::next(buffer.begin(), received));
+                return true;
             }
 
         }  // namespace
@@ -471,23 +483,17 @@ namespace extension {
                 retransmit();
             }
 
-            // Used for storing how many bytes are available on a socket
-            unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
+            sock_t from{};
+            std::vector<uint8_t> payload;
 
-            // Read packets from the multicast socket while there is data available
-            ioctl(announce_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(announce_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(announce_fd, FIONREAD, &(count = 0));
+            // Read packets from the multicast socket while there are some available
+            while (read_socket(announce_fd, from, payload)) {
+                process_packet(from, std::move(payload));
             }
 
-            // Check if we have a packet available on the data socket
-            ioctl(data_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(data_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(data_fd, FIONREAD, &(count = 0));
+            // Read packets from the data socket while there are some available
+            while (read_socket(data_fd, from, payload)) {
+                process_packet(from, std::move(payload));
             }
         }
 
-- 
2.43.0


From 0da56bb8a082f9bef3156034e0260c62366fcede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 28/52] fix: drop network packets that are truncated, corrupt
 or claim to be from the announce address

---
 src/extension/network/NUClearNetwork.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 50ea0f2..1819ab6 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -595,6 +595,25 @@ namespace extension {
                     remote = r == udp_target.end() ? nullptr : r->second;
                 }
 
+                // The target we announce to is not a node, so it can't be sending us anything
+                if (remote && remote->name.empty()) {
+                    return;
+                }
+
+                // Drop packets which are too short to hold what their type says they do
+                size_t required = sizeof(PacketHeader);
+                switch (header.type) {
+                    case ANNOUNCE: required = sizeof(AnnouncePacket); break;
+                    case LEAVE: required = sizeof(LeavePacket); break;
+                    case DATA_RETRANSMISSION:
+                    case DATA: required = sizeof(DataPacket) - 1; break;
+                    case ACK: required = sizeof(ACKPacket); break;
+                    case NACK: required = sizeof(NACKPacket); break;
+                }
+                if (payload.size() < required) {
+                    return;
+                }
+
                 switch (header.type) {
 
                     // A packet announcing that a user is on the network
@@ -675,7 +694,7 @@ namespace extension {
 
                         // If the packet is obviously corrupt, drop it and since we didn't ack it it'll be resent if
                         // it's important
-                        if (packet.packet_no > packet.packet_count) {
+                        if (packet.packet_no >= packet.packet_count) {
                             return;
                         }
 
-- 
2.43.0


From d789466f5e6da940334268284bd8299cc6b7bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 29/52] fix: deliver each reliable message once however many
 are sent and whichever copy arrives

---
 src/extension/network/NUClearNetwork.cpp | 34 +++++++-------
 src/extension/network/NUClearNetwork.hpp | 59 +++++++++++++++++++-----
 2 files changed, 64 insertions(+), 29 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 1819ab6..8da826f 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -704,18 +704,18 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
-                            // Check if this packet is a retransmission of data
-                            if (header.type == DATA_RETRANSMISSION) {
+                            // Check if this packet was already processed, as reliable packets are only delivered once
+                            if (packet.reliable) {
 
-                                // See if we recently processed this packet
-                                // NOLINTNEXTLINE(readability-qualified-auto) MSVC disagrees
-                                auto it = std::find(remote->recent_packets.begin(),
-                                                    remote->recent_packets.end(),
-                                                    packet.packet_id);
+                                bool processed = false;
+                                /* Mutex scope */ {
+                                    const std::lock_guard<std::mutex> lock(remote->assemblers_mutex);
+                                    processed = remote->recently_processed(packet.packet_id);
+                                }
 
-                                // We recently processed this packet, this is just a failed ack
-                                // Send the ack again if it was reliable
-                                if (it != remote->recent_packets.end() && packet.reliable) {
+                                // We recently processed this packet, this is just a failed ack or a duplicate
+                                // Send the ack again
+                                if (processed) {
 
                                     // Allocate room for the whole ack packet
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -772,10 +772,12 @@ namespace extension {
                                              &to.sock,
                                              to.size());
 
-                                    // Set this packet to have been recently received
-                                    remote->recent_packets[remote->recent_packets_index
-                                                               .fetch_add(1, std::memory_order_relaxed)] =
-                                        packet.packet_id;
+                                    // Set this packet to have been recently received, unless it was while we were here
+                                    const std::lock_guard<std::mutex> lock(remote->assemblers_mutex);
+                                    if (remote->recently_processed(packet.packet_id)) {
+                                        return;
+                                    }
+                                    remote->recent_packets[packet.packet_id] = remote->last_update;
                                 }
 
                                 packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
@@ -891,9 +893,7 @@ namespace extension {
                                     // If the packet was reliable add that it was recently received
                                     if (packet.reliable) {
                                         // Set this packet to have been recently received
-                                        remote->recent_packets[remote->recent_packets_index
-                                                                   .fetch_add(1, std::memory_order_relaxed)] =
-                                            packet.packet_id;
+                                        remote->recent_packets[packet.packet_id] = remote->last_update;
                                     }
 
                                     // We have completed this packet, discard the data
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e2277af..fdc111a 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -24,11 +24,10 @@
 #define NUCLEAR_EXTENSION_NETWORK_NUCLEAR_NETWORK_HPP
 
 #include <array>
-#include <atomic>
 #include <chrono>
 #include <cstdint>
 #include <functional>
-#include <limits>
+#include <iterator>
 #include <list>
 #include <map>
 #include <memory>
@@ -56,11 +55,7 @@ namespace extension {
                     std::string name,
                     const sock_t& target,
                     const std::chrono::steady_clock::time_point& last_update = std::chrono::steady_clock::now())
-                    : name(std::move(name)), target(target), last_update(last_update) {
-
-                    // Set our recent packets to an invalid value
-                    recent_packets.fill(-1);
-                }
+                    : name(std::move(name)), target(target), last_update(last_update) {}
 
                 /// The name of the remote target
                 std::string name;
@@ -68,11 +63,13 @@ namespace extension {
                 sock_t target{};
                 /// When we last received data from the remote target
                 std::chrono::steady_clock::time_point last_update;
-                /// A list of the last n packet groups to be received
-                std::array<int, std::numeric_limits<uint8_t>::max()> recent_packets{};
-                /// An index for the recent_packets (circular buffer)
-                std::atomic<uint8_t> recent_packets_index{0};
-                /// Mutex to protect the fragmented packet storage
+                /// The reliable packet groups that have been processed and when we last received a part of them
+                std::map<uint16_t, std::chrono::steady_clock::time_point> recent_packets;
+                /// The newest reliable packet group that has been seen
+                uint16_t newest_packet{0};
+                /// When the list of recent packets was last cleaned up
+                std::chrono::steady_clock::time_point recent_packets_cleaned{last_update};
+                /// Mutex to protect the fragmented packet storage and the recent packets
                 std::mutex assemblers_mutex;
                 /// Storage for fragmented packets while we build them
                 std::map<uint16_t,
@@ -91,6 +88,44 @@ namespace extension {
 
                 std::chrono::steady_clock::duration round_trip_time{std::chrono::seconds(1)};
 
+                /**
+                 * Check if a reliable packet group from this target has been processed recently.
+                 *
+                 * Packet groups are forgotten after a time or once there are many newer ones, as the target will reuse
+                 * their packet ids.
+                 * The assemblers_mutex must be held when calling this function.
+                 *
+                 * @param packet_id The identifier of the packet group that a part was just received for
+                 *
+                 * @return True if the packet group has been processed
+                 */
+                bool recently_processed(const uint16_t& packet_id) {
+                    constexpr std::chrono::seconds memory(10);
+                    const auto now = std::chrono::steady_clock::now();
+
+                    // Forget the packet groups we have not heard about for a while
+                    if (now - recent_packets_cleaned > std::chrono::seconds(1)) {
+                        recent_packets_cleaned = now;
+                        for (auto it = recent_packets.begin(); it != recent_packets.end();) {
+                            it = now - it->second > memory ? recent_packets.erase(it) : std::next(it);
+                        }
+                    }
+
+                    // An id which is ahead of the newest one we have seen is for a new packet group
+                    if (recent_packets.empty() || static_cast<int16_t>(packet_id - newest_packet) > 0) {
+                        newest_packet = packet_id;
+                        recent_packets.erase(packet_id);
+                        return false;
+                    }
+
+                    auto it = recent_packets.find(packet_id);
+                    if (it == recent_packets.end() || now - it->second > memory) {
+                        return false;
+                    }
+                    it->second = now;
+                    return true;
+                }
+
                 void measure_round_trip(std::chrono::steady_clock::duration time) {
 
                     // Make our measurement into a float seconds type
-- 
2.43.0


From 339f9b40fc7738b11deb8062ba2441c386cb1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 30/52] fix: keep the acknowledged parts of a reliable message
 and never mix parts of different messages

---
 src/extension/network/NUClearNetwork.cpp | 30 ++++++++++++++++++++----
 src/extension/network/NUClearNetwork.hpp | 16 +++++++++++++
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 8da826f..4195f33 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -94,6 +94,20 @@ namespace extension {
                 return true;
             }
 
+            /**
+             * Check if a data packet that was stored is a part of the same packet group as another data packet.
+             *
+             * @param stored The bytes of the stored data packet
+             * @param packet The other data packet
+             *
+             * @return True if they can both be parts of a single packet group
+             */
+            bool same_group(const std::vector<uint8_t>& stored, const DataPacket& packet) {
+                const DataPacket& other = *reinterpret_cast<const DataPacket*>(stored.data());
+                return other.packet_id == packet.packet_id && other.packet_count == packet.packet_count
+                       && other.reliable == packet.reliable && other.hash == packet.hash;
+            }
+
         }  // namespace
 
         NUClearNetwork::PacketQueue::PacketTarget::PacketTarget(std::weak_ptr<NetworkTarget> target,
@@ -790,10 +804,16 @@ namespace extension {
 
                                 auto& assembler = assemblers[packet.packet_id];
 
-                                // First check that our cache isn't super corrupted by ensuring that our last packet
-                                // in our list isn't after the number of packets we have
+                                // Parts which have timed out belong to an older packet
+                                const auto part_timeout = remote->assembler_timeout(packet.reliable);
+                                if (std::chrono::steady_clock::now() > assembler.first + part_timeout) {
+                                    assembler.second.clear();
+                                }
+
+                                // First check that our cache isn't super corrupted by ensuring that the packets in our
+                                // list are parts of the same packet as this one
                                 if (!assembler.second.empty()
-                                    && std::next(assembler.second.end(), -1)->first >= packet.packet_count) {
+                                    && !same_group(assembler.second.begin()->second, packet)) {
 
                                     // If so, we need to purge our cache and if this was a reliable packet, send a
                                     // NACK back for all the packets we thought we had
@@ -903,7 +923,9 @@ namespace extension {
                                 // Check for and delete any timed out packets
                                 for (auto it = assemblers.begin(); it != assemblers.end();) {
                                     const auto now              = std::chrono::steady_clock::now();
-                                    const auto timeout          = remote->round_trip_time * 10.0;
+                                    const auto& part =
+                                        *reinterpret_cast<const DataPacket*>(it->second.second.begin()->second.data());
+                                    const auto timeout          = remote->assembler_timeout(part.reliable);
                                     const auto& last_chunk_time = it->second.first;
 
                                     it = now > last_chunk_time + timeout ? assemblers.erase(it) : std::next(it);
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index fdc111a..f2c4bc3 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_EXTENSION_NETWORK_NUCLEAR_NETWORK_HPP
 #define NUCLEAR_EXTENSION_NETWORK_NUCLEAR_NETWORK_HPP
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <cstdint>
@@ -126,6 +127,21 @@ namespace extension {
                     return true;
                 }
 
+                /**
+                 * How long to keep the parts of an incomplete packet after the last of them arrived.
+                 *
+                 * The parts of a reliable packet have been acknowledged so they won't be sent again if they are dropped.
+                 *
+                 * @param reliable If the packet is reliable
+                 *
+                 * @return How long to keep the parts for
+                 */
+                std::chrono::steady_clock::duration assembler_timeout(const bool& reliable) const {
+                    const std::chrono::steady_clock::duration timeout = round_trip_time * 10;
+                    return reliable ? std::max(timeout, std::chrono::steady_clock::duration(std::chrono::seconds(10)))
+                                    : timeout;
+                }
+
                 void measure_round_trip(std::chrono::steady_clock::duration time) {
 
                     // Make our measurement into a float seconds type
-- 
2.43.0


From 411a4b5512c006958914491baaef69a6b0d0d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 31/52] fix: refuse to send a message which has more packets
 than can be counted

---
 src/extension/network/NUClearNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 4195f33..9c18883 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -1125,6 +1125,11 @@ namespace extension {
                 throw std::runtime_error("Cannot send messages as the network is not connected");
             }
 
+            // If there would be more packets than can be counted we are unable to send it
+            if (payload.size() / packet_data_mtu >= std::numeric_limits<uint16_t>::max()) {
+                throw std::runtime_error("Cannot send messages that are too large for the network");
+            }
+
             // The header for our packet
             DataPacket header;
 
-- 
2.43.0


From f62b5334cf6e1175652e24b07d76330bd46e1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 32/52] fix: do not hold the lock of the network reactions
 while running them

---
 src/extension/NetworkController.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 46ba172..3b6ffcc 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -62,25 +62,29 @@ namespace extension {
             // Move the payload in as we are stealing it
             const std::vector<uint8_t> p(std::move(payload));
 
+            // Find interested reactions
+            std::vector<std::shared_ptr<threading::Reaction>> interested;
             /* Mutex Scope */ {
-                // Lock our reaction mutex
                 const std::lock_guard<std::mutex> lock(reaction_mutex);
-
-                // Find interested reactions
                 auto rs = reactions.equal_range(hash);
-
-                // Execute on our interested reactions
                 for (auto it = rs.first; it != rs.second; ++it) {
-                    // Store in our thread local cache
-                    dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
-                    dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
-
-                    powerplant.submit(it->second->get_task());
+                    interested.push_back(it->second);
                 }
+            }
+
+            // Execute on our interested reactions without holding the mutex as inline reactions can bind and unbind
+            for (const auto& reaction : interested) {
+                // Store in our thread local cache
+                dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
+                dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
+
+                auto task = reaction->get_task();
 
                 // Clear our cache
                 dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = nullptr;
                 dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = nullptr;
+
+                powerplant.submit(std::move(task));
             }
         });
 
-- 
2.43.0


From 640ce8e01986ef046a2608266bd2670b65eb0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 33/52] fix: let only one thread at a time process, reset or
 shut down the network

---
 src/extension/NetworkController.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 3b6ffcc..d5331dd 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -138,10 +138,10 @@ namespace extension {
             network.send(emit.hash, emit.payload, emit.target, emit.reliable);
         });
 
-        on<Shutdown>().then("Shutdown Network", [this] { network.shutdown(); });
+        on<Shutdown, Sync<NetworkController>>().then("Shutdown Network", [this] { network.shutdown(); });
 
         // Configure the NUClearNetwork options
-        on<Trigger<NetworkConfiguration>>().then([this](const NetworkConfiguration& config) {
+        on<Trigger<NetworkConfiguration>, Sync<NetworkController>>().then([this](const NetworkConfiguration& config) {
             // Unbind our announce handle
             if (process_handle) {
                 process_handle.unbind();
@@ -161,11 +161,13 @@ namespace extension {
             // Reset our network using this configuration
             network.reset(name, config.announce_address, config.announce_port, config.bind_address, config.mtu);
 
-            // Execution handle
-            process_handle = on<Trigger<ProcessNetwork>>().then("Network processing", [this] { network.process(); });
+            // Execution handle, only one thread can be using the network at a time
+            process_handle = on<Trigger<ProcessNetwork>, Sync<NetworkController>>().then("Network processing",
+                                                                                         [this] { network.process(); });
 
             for (auto& fd : network.listen_fds()) {
-                listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
+                listen_handles.push_back(
+                    on<IO, Sync<NetworkController>>(fd, IO::READ).then("Packet", [this] { network.process(); }));
             }
 
             // Process the network now so that we announce ourselves and keep doing so from here
-- 
2.43.0


From fd2fe175f382b535e792b761d21e62cedc8f3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:15 +0000
Subject: [PATCH 34/52] fix: a descriptor with nothing to read is only closed
 if it is at its end

---
 src/extension/IOController_Posix.ipp | 39 ++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index b53910d..ade91a2 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -20,6 +20,8 @@
  * OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
  */
 
+#include <sys/stat.h>
+
 #include "IOController.hpp"
 
 namespace NUClear {
@@ -88,6 +90,34 @@ namespace extension {
             IOController::notifier_t& notifier_;
         };
 
+        /**
+         * Checks if a file descriptor that poll reported as readable is readable because it is at its end.
+         *
+         * Having no bytes to read is not enough to know this, a datagram can be empty and if something else is using the
+         * same file descriptor it may have read the data that poll saw.
+         *
+         * @param fd the file descriptor to check
+         *
+         * @return `true` if there will be nothing more to read from this file descriptor
+         */
+        bool at_end_of_file(const fd_t& fd) {
+            int bytes_available = 0;
+            if (::ioctl(fd, FIONREAD, &bytes_available) != 0 || bytes_available != 0) {
+                return false;
+            }
+
+            int type      = 0;
+            socklen_t len = sizeof(type);
+            if (::getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &len) == 0) {
+                char c = 0;
+                return type != SOCK_DGRAM && ::recv(fd, &c, sizeof(c), MSG_PEEK | MSG_DONTWAIT) == 0;
+            }
+
+            // Poll reports the end of a pipe as a close
+            struct stat info {};
+            return ::fstat(fd, &info) != 0 || !S_ISFIFO(info.st_mode);
+        }
+
     }  // namespace
 
     void IOController::rebuild_list() {
@@ -172,14 +202,7 @@ namespace extension {
             // On linux we don't get a close event, we just keep getting read events with 0 bytes
             // To make the close event happen if we get a read event with 0 bytes we will check if there are
             // any currently processing reads and if not, then close
-            bool maybe_eof = false;
-            if ((event.revents & IO::READ) != 0) {
-                int bytes_available = 0;
-                const bool valid    = ::ioctl(event.fd, FIONREAD, &bytes_available) == 0;
-                if (valid && bytes_available == 0) {
-                    maybe_eof = true;
-                }
-            }
+            const bool maybe_eof = (event.revents & IO::READ) != 0 && at_end_of_file(event.fd);
 
             // Find our relevant tasks
             auto range = std::equal_range(tasks.begin(),
-- 
2.43.0


From 01c965c4c941a1d14a52942496fc8497917d045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:53 +0000
Subject: [PATCH 35/52] fix: keep watching for events that wait for a reaction
 which can not run yet

---
 src/extension/IOController_Posix.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index ade91a2..9230fbe 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -131,15 +131,17 @@ namespace extension {
         watches.push_back(pollfd{notifier.recv, POLLIN | POLLERR | POLLNVAL, 0});
 
         for (const auto& r : tasks) {
+            // Events that are waiting will only be fired by the end of the processing if there is something processing
+            const event_t busy_events =
+                r.processing_events != 0 ? event_t(r.processing_events | r.waiting_events) : event_t(0);
+
             // If we are the same fd, then add our interest set and mask out events that are already being processed
             if (r.fd == watches.back().fd) {
-                watches.back().events =
-                    event_t((watches.back().events | r.listening_events) & ~(r.processing_events | r.waiting_events));
+                watches.back().events = event_t((watches.back().events | r.listening_events) & ~busy_events);
             }
             // Otherwise add a new one and mask out events that are already being processed
             else {
-                watches.push_back(
-                    pollfd{r.fd, event_t(r.listening_events & ~(r.processing_events | r.waiting_events)), 0});
+                watches.push_back(pollfd{r.fd, event_t(r.listening_events & ~busy_events), 0});
             }
         }
 
@@ -300,13 +302,13 @@ namespace extension {
                     wake.signal();
                     const auto notifier_lock = wake.lock();
 
-                    // Unmask the events that were just processed
+                    // Unmask the events that were just processed and those that are about to be fired
                     auto it = std::lower_bound(watches.begin(),
                                                watches.end(),
                                                task->fd,
                                                [&](const pollfd& w, const fd_t& fd) { return w.fd < fd; });
                     if (it != watches.end() && it->fd == task->fd) {
-                        it->events = event_t(it->events | task->processing_events);
+                        it->events = event_t(it->events | task->processing_events | task->waiting_events);
                     }
 
                     // No longer processing events
-- 
2.43.0


From 92270f7e7ca88560445f22af114776e3049f898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 36/52] fix: do not use what poll saw on descriptors that have
 been replaced since

---
 src/extension/IOController_Posix.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 9230fbe..afa48a6 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -376,8 +376,9 @@ namespace extension {
                 for (auto& fd : watches) {
 
                     // Collect the events that happened into the tasks list
-                    // Something happened
-                    if (fd.revents != 0) {
+                    // Something happened, although if the tasks changed since then it may be to another file that had the
+                    // same file descriptor. If it is not poll will report it again when the list has been rebuilt
+                    if (fd.revents != 0 && (fd.fd == notifier.recv || !dirty.load(std::memory_order_acquire))) {
                         process_event(fd);
                     }
                 }
-- 
2.43.0


From 401e4c2ec0281728c105bf551c2d1959727d013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:15 +0000
Subject: [PATCH 37/52] fix: do not trigger an IO reaction again for an event
 it has just processed

---
 src/extension/IOController_Posix.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index afa48a6..b24c74b 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -221,7 +221,9 @@ namespace extension {
                 // Loop through our values
                 for (auto it = range.first; it != range.second; ++it) {
                     // Load in the relevant events that happened into the waiting events
-                    it->waiting_events = event_t(it->waiting_events | (it->listening_events & event.revents));
+                    // If they are already being processed poll will report them again after that if they still apply
+                    it->waiting_events = event_t(it->waiting_events
+                                                 | (it->listening_events & event.revents & ~it->processing_events));
 
                     if (maybe_eof && (it->processing_events & IO::READ) == 0) {
                         it->waiting_events |= IO::CLOSE;
@@ -309,6 +311,9 @@ namespace extension {
                                                [&](const pollfd& w, const fd_t& fd) { return w.fd < fd; });
                     if (it != watches.end() && it->fd == task->fd) {
                         it->events = event_t(it->events | task->processing_events | task->waiting_events);
+
+                        // What poll saw before the reaction processed these events no longer applies
+                        it->revents = event_t(it->revents & ~task->processing_events);
                     }
 
                     // No longer processing events
-- 
2.43.0


From 0084ede1b3ed8e9bc89929fa4cdb33791ec5262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 38/52] fix: do not hold the lock of the IO tasks while running
 the reactions that run inline

---
 src/extension/IOController.hpp       | 13 +++++++++++++
 src/extension/IOController_Posix.ipp | 21 ++++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/extension/IOController.hpp b/src/extension/IOController.hpp
index 69c0d68..0d629eb 100644
--- a/src/extension/IOController.hpp
+++ b/src/extension/IOController.hpp
@@ -110,6 +110,15 @@ namespace extension {
          */
         void fire_event(Task& task);
 
+#ifndef _WIN32
+        /**
+         * Submits the tasks that have been fired after releasing the lock on the tasks.
+         *
+         * @param lock The lock on the tasks mutex
+         */
+        void submit_fired(std::unique_lock<std::mutex>& lock);
+#endif
+
         /**
          * Collects the events that have happened and sets them up to fire.
          */
@@ -141,6 +150,10 @@ namespace extension {
         std::vector<watcher_t> watches;
         /// The list of tasks that are waiting for IO events
         tasks_t tasks;
+#ifndef _WIN32
+        /// The tasks that have been fired and are to be submitted when the tasks mutex is released
+        std::vector<std::unique_ptr<threading::ReactionTask>> fired;
+#endif
     };
 
 }  // namespace extension
diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index b24c74b..62d0266 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -176,7 +176,8 @@ namespace extension {
                     it->events = event_t(it->events & ~task.processing_events);
                 }
 
-                powerplant.submit(std::move(r));
+                // The task may run inline so it can only be submitted once the locks are released
+                fired.push_back(std::move(r));
             }
             else {
                 task.waiting_events    = event_t(task.waiting_events | task.processing_events);
@@ -185,6 +186,16 @@ namespace extension {
         }
     }
 
+    void IOController::submit_fired(std::unique_lock<std::mutex>& lock) {
+        std::vector<std::unique_ptr<threading::ReactionTask>> to_submit;
+        to_submit.swap(fired);
+        lock.unlock();
+
+        for (auto& task : to_submit) {
+            powerplant.submit(std::move(task));
+        }
+    }
+
     void IOController::process_event(pollfd& event) {
 
 
@@ -279,7 +290,7 @@ namespace extension {
 
         on<Trigger<dsl::word::IOFinished>>().then("IO Finished", [this](const dsl::word::IOFinished& event) {
             // Get the lock so we don't concurrently modify the list
-            const std::lock_guard<std::mutex> lock(tasks_mutex);
+            std::unique_lock<std::mutex> lock(tasks_mutex);
 
             // Find the reaction that finished processing
             auto task = std::find_if(tasks.begin(), tasks.end(), [&event](const Task& t) {
@@ -323,6 +334,8 @@ namespace extension {
                     fire_event(*task);
                 }
             }
+
+            submit_fired(lock);
         });
 
         on<Trigger<dsl::operation::Unbind<IO>>>().then(
@@ -377,7 +390,7 @@ namespace extension {
                 }
 
                 // Get the lock so we don't concurrently modify the list
-                const std::lock_guard<std::mutex> lock(tasks_mutex);
+                std::unique_lock<std::mutex> lock(tasks_mutex);
                 for (auto& fd : watches) {
 
                     // Collect the events that happened into the tasks list
@@ -387,6 +400,8 @@ namespace extension {
                         process_event(fd);
                     }
                 }
+
+                submit_fired(lock);
             }
         });
     }
-- 
2.43.0


From e16537a5974f0cce4aa8a882a5825212d65f501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 39/52] fix: a datagram which is not for a UDP reaction must
 not run it again with its last packet

The packets are transient, so when the datagram that arrived was of another kind
(for example a unicast to the port of a multicast reaction) the reaction ran again
with the packet that it had been given before.
---
 src/dsl/word/UDP.hpp | 167 +++++++++++++++++++++++++++++--------------
 1 file changed, 112 insertions(+), 55 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 04206ec..af023ab 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -315,7 +315,7 @@ namespace dsl {
             }
 
             template <typename DSL>
-            static RecvResult read(threading::ReactionTask& task) {
+            static RecvResult read(threading::ReactionTask& task, const int& flags = 0) {
                 // Get our file descriptor from the magic cache
                 auto event = IO::get<DSL>(task);
 
@@ -345,7 +345,7 @@ namespace dsl {
                 mh.msg_iovlen     = 1;
 
                 // Receive our message
-                const ssize_t received = recvmsg(event.fd, &mh, MSG_DONTWAIT);
+                const ssize_t received = recvmsg(event.fd, &mh, flags | MSG_DONTWAIT);
                 if (received < 0) {
                     return {};
                 }
@@ -393,44 +393,100 @@ namespace dsl {
                 return RecvResult{true, buffer, local, remote};
             }
 
-            template <typename DSL>
-            static std::tuple<in_port_t, fd_t> bind(const std::shared_ptr<threading::Reaction>& reaction,
-                                                    const in_port_t& port           = 0,
-                                                    const std::string& bind_address = "") {
-                return connect<DSL>(reaction, ConnectOptions{ConnectOptions::Type::UNICAST, bind_address, port, ""});
+            /**
+             * Checks that there is a datagram of the right kind for the reaction, and removes those which are not.
+             *
+             * This must be known before the data is collected as otherwise the last packet would be used again.
+             *
+             * @tparam Type the type of the packets (UDP, Broadcast or Multicast)
+             *
+             * @return `true` if there is a datagram for the reaction or it was triggered by something else
+             */
+            template <typename DSL, typename Type>
+            static bool has_packet(threading::ReactionTask& task) {
+#ifdef _WIN32
+                // Looking at the packet without removing it is not possible here
+                std::ignore = task;
+                return true;
+#else
+                if (!IO::get<DSL>(task)) {
+                    return true;
+                }
+
+                const RecvResult next = read<DSL>(task, MSG_PEEK);
+                if (!next.valid) {
+                    return false;
+                }
+                if (!Type::is_for_us(next.local)) {
+                    read<DSL>(task);
+                    return false;
+                }
+                return true;
+#endif  // _WIN32
             }
 
-            template <typename DSL>
-            static Packet get(threading::ReactionTask& task) {
+            /**
+             * Collects the next packet for a reaction.
+             *
+             * @tparam Type the type of the packets (UDP, Broadcast or Multicast)
+             *
+             * @return the packet, which is not valid if there is none of this type
+             */
+            template <typename DSL, typename Type>
+            static Packet get_packet(threading::ReactionTask& task) {
                 RecvResult result = read<DSL>(task);
 
                 Packet p{};
-                p.valid   = result.valid;
-                p.payload = std::move(result.payload);
-                p.local   = result.local;
-                p.remote  = result.remote;
+                if (result.valid && Type::is_for_us(result.local)) {
+                    p.valid   = true;
+                    p.payload = std::move(result.payload);
+                    p.local   = result.local;
+                    p.remote  = result.remote;
+                }
+                return p;
+            }
 
-                // Confirm that this packet was sent to one of our local addresses
+            /**
+             * Checks that an address is one of our local addresses.
+             */
+            static bool is_for_us(const util::network::sock_t& local) {
                 for (const auto& iface : util::network::get_interfaces()) {
-                    if (iface.ip.sock.sa_family == result.local.sock.sa_family) {
+                    if (iface.ip.sock.sa_family == local.sock.sa_family) {
                         // If the two are equal
                         if (iface.ip.sock.sa_family == AF_INET) {
-                            if (iface.ip.ipv4.sin_addr.s_addr == result.local.ipv4.sin_addr.s_addr) {
-                                return p;
+                            if (iface.ip.ipv4.sin_addr.s_addr == local.ipv4.sin_addr.s_addr) {
+                                return true;
                             }
                         }
                         else if (iface.ip.sock.sa_family == AF_INET6) {
                             if (std::memcmp(&iface.ip.ipv6.sin6_addr,
-                                            &result.local.ipv6.sin6_addr,
-                                            sizeof(result.local.ipv6.sin6_addr))
+                                            &local.ipv6.sin6_addr,
+                                            sizeof(local.ipv6.sin6_addr))
                                 == 0) {
-                                return p;
+                                return true;
                             }
                         }
                     }
                 }
 
-                return {};
+                return false;
+            }
+
+            template <typename DSL>
+            static std::tuple<in_port_t, fd_t> bind(const std::shared_ptr<threading::Reaction>& reaction,
+                                                    const in_port_t& port           = 0,
+                                                    const std::string& bind_address = "") {
+                return connect<DSL>(reaction, ConnectOptions{ConnectOptions::Type::UNICAST, bind_address, port, ""});
+            }
+
+            template <typename DSL>
+            static bool precondition(threading::ReactionTask& task) {
+                return has_packet<DSL, UDP>(task);
+            }
+
+            template <typename DSL>
+            static Packet get(threading::ReactionTask& task) {
+                return get_packet<DSL, UDP>(task);
             }
 
             struct Broadcast : IO {
@@ -443,36 +499,40 @@ namespace dsl {
                                              ConnectOptions{ConnectOptions::Type::BROADCAST, bind_address, port, ""});
                 }
 
-                template <typename DSL>
-                static Packet get(threading::ReactionTask& task) {
-                    RecvResult result = read<DSL>(task);
-
+                /**
+                 * Checks that an address is one of our broadcast addresses.
+                 */
+                static bool is_for_us(const util::network::sock_t& local) {
                     // Broadcast is only IPv4
-                    if (result.local.sock.sa_family == AF_INET) {
-
-                        Packet p{};
-                        p.valid   = result.valid;
-                        p.payload = std::move(result.payload);
-                        p.local   = result.local;
-                        p.remote  = result.remote;
+                    if (local.sock.sa_family == AF_INET) {
 
                         // 255.255.255.255 is always a valid broadcast address
-                        if (result.local.ipv4.sin_addr.s_addr == htonl(INADDR_BROADCAST)) {
-                            return p;
+                        if (local.ipv4.sin_addr.s_addr == htonl(INADDR_BROADCAST)) {
+                            return true;
                         }
 
                         // Confirm that this packet was sent to one of our broadcast addresses
                         for (const auto& iface : util::network::get_interfaces()) {
                             if (iface.broadcast.sock.sa_family == AF_INET) {
                                 if (iface.flags.broadcast
-                                    && iface.broadcast.ipv4.sin_addr.s_addr == result.local.ipv4.sin_addr.s_addr) {
-                                    return p;
+                                    && iface.broadcast.ipv4.sin_addr.s_addr == local.ipv4.sin_addr.s_addr) {
+                                    return true;
                                 }
                             }
                         }
                     }
 
-                    return {};
+                    return false;
+                }
+
+                template <typename DSL>
+                static bool precondition(threading::ReactionTask& task) {
+                    return has_packet<DSL, Broadcast>(task);
+                }
+
+                template <typename DSL>
+                static Packet get(threading::ReactionTask& task) {
+                    return get_packet<DSL, Broadcast>(task);
                 }
             };
 
@@ -488,26 +548,23 @@ namespace dsl {
                         ConnectOptions{ConnectOptions::Type::MULTICAST, bind_address, port, multicast_group});
                 }
 
+                /**
+                 * Checks that an address is a multicast address.
+                 */
+                static bool is_for_us(const util::network::sock_t& local) {
+                    return (local.sock.sa_family == AF_INET
+                            && (ntohl(local.ipv4.sin_addr.s_addr) & 0xF0000000U) == 0xE0000000U)
+                           || (local.sock.sa_family == AF_INET6 && local.ipv6.sin6_addr.s6_addr[0] == 0xFF);
+                }
+
                 template <typename DSL>
-                static Packet get(threading::ReactionTask& task) {
-                    RecvResult result = read<DSL>(task);
-
-                    const auto& a = result.local;
-                    const bool multicast =
-                        (a.sock.sa_family == AF_INET && (ntohl(a.ipv4.sin_addr.s_addr) & 0xF0000000U) == 0xE0000000U)
-                        || (a.sock.sa_family == AF_INET6 && a.ipv6.sin6_addr.s6_addr[0] == 0xFF);
-
-                    // Only return multicast packets
-                    if (multicast) {
-                        Packet p{};
-                        p.valid   = result.valid;
-                        p.payload = std::move(result.payload);
-                        p.local   = result.local;
-                        p.remote  = result.remote;
-                        return p;
-                    }
+                static bool precondition(threading::ReactionTask& task) {
+                    return has_packet<DSL, Multicast>(task);
+                }
 
-                    return {};
+                template <typename DSL>
+                static Packet get(threading::ReactionTask& task) {
+                    return get_packet<DSL, Multicast>(task);
                 }
             };
         };
-- 
2.43.0


From 190e346b4a83ee827a9c7e43e30c846325cdc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 40/52] fix: a multicast reaction must only receive from the
 group it joined

On Linux a socket bound to any address receives from every group that anything on the
system has joined, unless IP_MULTICAST_ALL is turned off.
---
 src/dsl/word/UDP.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index af023ab..dee2be1 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -230,6 +230,18 @@ namespace dsl {
                         mreq.imr_multiaddr = multicast_target.ipv4.sin_addr;
                         mreq.imr_interface = bind_address.ipv4.sin_addr;
 
+#ifdef IP_MULTICAST_ALL
+                        // Only receive from the group we are joining, by default this would receive from every group
+                        // that anything on this system has joined
+                        int no = 0;
+                        if (::setsockopt(fd, IPPROTO_IP, IP_MULTICAST_ALL, reinterpret_cast<char*>(&no), sizeof(no))
+                            < 0) {
+                            throw std::system_error(network_errno,
+                                                    std::system_category(),
+                                                    "Unable to only receive from the requested multicast group");
+                        }
+#endif
+
                         // Join our multicast group
                         if (::setsockopt(fd,
                                          IPPROTO_IP,
-- 
2.43.0


From 2f360d2f780fc8d182b964a1e0db7aae4eacb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 41/52] fix: a TCP connection which was not accepted must not
 be valid

Its file descriptor was 0, which is a valid one, so a reaction ran with it when it was
triggered by something other than a connection or the connection was gone.
---
 src/dsl/word/TCP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 12c2ae9..1cfb216 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -72,7 +72,7 @@ namespace dsl {
                 util::network::sock_t remote;
 
                 /// The file descriptor for the connection
-                fd_t fd;
+                fd_t fd{INVALID_SOCKET};
 
                 /**
                  * Casts this packet to a boolean to check if it is valid
-- 
2.43.0


From 6cc2ca4a1bdfa6bd0e80323699926d2570ccfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:42 +0000
Subject: [PATCH 42/52] fix: unbinding a reaction again must not release its
 resources again

While its tasks keep it alive a reaction can be unbound more than once, the second time a
UDP or TCP reaction closed whatever had been given the number of its file descriptor.
---
 src/threading/Reaction.cpp | 5 +++++
 src/threading/Reaction.hpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index ba56127..754ba91 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -54,6 +54,11 @@ namespace threading {
         // An emit which is already in progress may still hold this reaction, it must not make any more tasks from it
         enabled = false;
 
+        // What the unbinders release may belong to something else afterwards, so they must only run once
+        if (unbound.exchange(true)) {
+            return;
+        }
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index 2f647d9..8c53d84 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -125,6 +125,9 @@ namespace threading {
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
+        /// if this reaction object has been unbound
+        std::atomic<bool> unbound{false};
+
         /// list of functions to use to unbind the reaction and clean
         std::vector<std::function<void(Reaction&)>> unbinders;
 
-- 
2.43.0


From 356f5f85630369c584e4d41bb075fab3e8afd307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:44 +0000
Subject: [PATCH 43/52] fix: a UDP or TCP socket must not be closed while its
 reaction can still be triggered

The socket was closed before the IO system was told to stop, so when the reaction was being
triggered at the time it could read from whatever was given the same file descriptor.
---
 src/threading/Reaction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 754ba91..f673ab4 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -59,9 +59,9 @@ namespace threading {
             return;
         }
 
-        // Unbind
-        for (const auto& u : unbinders) {
-            u(*this);
+        // Unbind in the opposite order to binding, what was bound first may still be in use by what was bound after it
+        for (auto it = unbinders.rbegin(); it != unbinders.rend(); ++it) {
+            (*it)(*this);
         }
     }
 
-- 
2.43.0


From e90e979fc3faf51286369a72747d3e33db5780dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:44 +0000
Subject: [PATCH 44/52] fix: a UDP reaction bound to any port must be given one
 that is not in use

The socket allowed its port to be shared before it had one, so the system could give it the
port of another reaction and each of them would miss some of what was sent to it.
---
 src/dsl/word/UDP.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index dee2be1..4557179 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -199,26 +199,35 @@ namespace dsl {
                     }
                 }
 
-                if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
-                    throw std::system_error(network_errno,
-                                            std::system_category(),
-                                            "Unable to reuse address on the socket");
-                }
-
+                // Allow others to bind to the same address and port
+                const auto allow_reuse = [&] {
+                    bool success =
+                        ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<char*>(&yes), sizeof(yes)) == 0;
 // If SO_REUSEPORT is available set it too
 #ifdef SO_REUSEPORT
-                if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
+                    success =
+                        success
+                        && ::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<char*>(&yes), sizeof(yes)) == 0;
+#endif
+                    return success;
+                };
+
+                // If we are to be given a port it must be one that is not in use, so it can't be shared until we have it
+                if (options.port != 0 && !allow_reuse()) {
                     throw std::system_error(network_errno,
                                             std::system_category(),
-                                            "Unable to reuse port on the socket");
+                                            "Unable to reuse address and port on the socket");
                 }
-#endif
 
                 // Bind to the address
                 if (::bind(fd, &bind_address.sock, bind_address.size()) != 0) {
                     throw std::system_error(network_errno, std::system_category(), "Unable to bind the UDP socket");
                 }
 
+                if (options.port == 0) {
+                    std::ignore = allow_reuse();
+                }
+
                 // If we have a multicast address, then we need to join the multicast groups
                 if (options.type == ConnectOptions::Type::MULTICAST) {
 
-- 
2.43.0


From c464991cbbda66bc1288fa5738f8a4f38e4144eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:15 +0000
Subject: [PATCH 45/52] fix: emitting UDP from any port must not use one that
 is in use

When only the address to send from was given the system could choose the port of a UDP
reaction, and what was sent to it meanwhile was lost.
---
 src/dsl/word/emit/UDP.hpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/dsl/word/emit/UDP.hpp b/src/dsl/word/emit/UDP.hpp
index dbdfb8a..b358c27 100644
--- a/src/dsl/word/emit/UDP.hpp
+++ b/src/dsl/word/emit/UDP.hpp
@@ -105,21 +105,24 @@ namespace dsl {
 
                     int yes = 1;
                     // Set reuse address and port so that emit can use the same port multiple times
-                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<const char*>(&yes), sizeof(yes))
-                        < 0) {
-                        throw std::system_error(network_errno,
-                                                std::system_category(),
-                                                "Unable to set the reuse address option on the UDP socket");
-                    }
+                    // If the port is chosen for us then it must not be one that is in use, that would take its packets
+                    if (from_port != 0) {
+                        if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<const char*>(&yes), sizeof(yes))
+                            < 0) {
+                            throw std::system_error(network_errno,
+                                                    std::system_category(),
+                                                    "Unable to set the reuse address option on the UDP socket");
+                        }
 #ifdef SO_REUSEPORT
-                    // If SO_REUSEPORT is available set it too
-                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<const char*>(&yes), sizeof(yes))
-                        < 0) {
-                        throw std::system_error(network_errno,
-                                                std::system_category(),
-                                                "Unable to set the reuse port option on the UDP socket");
-                    }
+                        // If SO_REUSEPORT is available set it too
+                        if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<const char*>(&yes), sizeof(yes))
+                            < 0) {
+                            throw std::system_error(network_errno,
+                                                    std::system_category(),
+                                                    "Unable to set the reuse port option on the UDP socket");
+                        }
 #endif
+                    }
 
                     // If we are using multicast and we have a specific from_addr we need to tell the system to use the
                     // correct interface
-- 
2.43.0


From 88569789c6740c7eeb7f47455469905427c52df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:04 +0000
Subject: [PATCH 46/52] fix: reactions of a reactor must be able to bind
 reactions at the same time

The list of handles that the reactor unbinds at its end was changed without a lock, so binding
from two reactions which run at the same time corrupted it.
---
 src/Reactor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index 1d31b70..ac609ea 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string>
 #include <tuple>
@@ -186,6 +187,8 @@ public:
     }
 
 private:
+    /// Reactions can be bound from any of the reactions of the reactor, which may be running at the same time
+    std::mutex reaction_handles_mutex;
     std::vector<threading::ReactionHandle> reaction_handles;
 
 public:
@@ -382,7 +385,10 @@ public:
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
             auto handle = threading::ReactionHandle(reaction);
-            reactor.reaction_handles.push_back(handle);
+            /* mutex scope */ {
+                const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
+                reactor.reaction_handles.push_back(handle);
+            }
 
             // Return the arguments to the user (if there is only 1 we unwrap it for them since this is the most common
             // case)
-- 
2.43.0


From 2f183b6b729d9cc1ed0fc21c2187473a99f87081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:04 +0000
Subject: [PATCH 47/52] fix: a reaction must keep a copy of a callback that was
 given as an lvalue

It kept a reference to it, which was used after the callback had gone out of scope.
---
 src/Reactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index ac609ea..e94cd91 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -379,7 +379,7 @@ public:
             auto reaction = std::make_shared<threading::Reaction>(
                 reactor,
                 std::move(identifiers),
-                util::CallbackGenerator<DSL, Function>(std::forward<Function>(callback)));
+                util::CallbackGenerator<DSL, std::decay_t<Function>>(std::forward<Function>(callback)));
 
             // Get our tuple from binding our reaction
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
-- 
2.43.0


From 9c8b37d6874d8bb5d023e5944696b43ba935de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 48/52] fix: flow ids in a trace are fixed64 fields

---
 src/extension/TraceController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index 15c5002..f0c34c0 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -198,7 +198,7 @@ namespace extension {
                 trace::protobuf::uint64(31, thread_time_uuid, data);       // extra_counter_track_uuids:31:uint64
                 trace::protobuf::int64(12, ts(relevant.thread_time).count(), data);  // extra_counter_values:12:int64
                 if (event.type == ReactionEvent::CREATED || event.type == ReactionEvent::STARTED) {
-                    trace::protobuf::uint64(47, task_id, data);  // flow_ids:47:fixed64
+                    trace::protobuf::fixed64(47, task_id, data);  // flow_ids:47:fixed64
                 }
             }
         }
-- 
2.43.0


From 4a761dc54a7af153dc4753c102d416c23ab61b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 49/52] fix: messages over 16383 bytes in a trace were given a
 wrong length

---
 src/extension/trace/protobuf.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/extension/trace/protobuf.cpp b/src/extension/trace/protobuf.cpp
index 017b54e..0148daf 100644
--- a/src/extension/trace/protobuf.cpp
+++ b/src/extension/trace/protobuf.cpp
@@ -147,8 +147,17 @@ namespace extension {
             }
             SubMessage::~SubMessage() {
                 // Update the length of the SubMessage
-                auto size = uint32_t(data.size() - start - varint_bytes);
-                auto it   = std::next(data.begin(), ptrdiff_t(start));
+                const auto size = uint32_t(data.size() - start - varint_bytes);
+                // If the size needs more bytes than were reserved for it then make room for them
+                size_t needed = 1;
+                for (uint32_t v = size >> 7; v != 0; v >>= 7) {
+                    ++needed;
+                }
+                if (needed > varint_bytes) {
+                    data.insert(std::next(data.begin(), ptrdiff_t(start)), needed - varint_bytes, 0);
+                    varint_bytes = needed;
+                }
+                auto it = std::next(data.begin(), ptrdiff_t(start));
                 encode::redundant_varint(size, varint_bytes, it);
             }
 
-- 
2.43.0


From b02085f302236a1fbfc6a92aa7fc98f011651ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 50/52] fix: a second trace file did not define the names and
 tracks that it uses

---
 src/extension/TraceController.cpp      | 7 +++++++
 src/extension/trace/StringInterner.hpp | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index f0c34c0..bd43cb3 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -276,6 +276,13 @@ namespace extension {
             // Open a new file in the target location
             trace_file.open(e.file, std::ios::binary);
 
+            // Nothing that was defined in a previous file is defined in this one
+            process_uuid = 0;
+            thread_uuids.clear();
+            categories.clear();
+            event_names.clear();
+            log_message_bodies.clear();
+
             // Write a reset packet so that incremental state works
             std::vector<char> data;
             {
diff --git a/src/extension/trace/StringInterner.hpp b/src/extension/trace/StringInterner.hpp
index 11c9a72..fec2955 100644
--- a/src/extension/trace/StringInterner.hpp
+++ b/src/extension/trace/StringInterner.hpp
@@ -93,6 +93,15 @@ namespace extension {
                 return iid;
             }
 
+            /**
+             * Forget all the interned keys so that they are written again when they are next used.
+             *
+             * This must be done when a new trace file is started, as the ids are only valid in the file they are written to.
+             */
+            void clear() {
+                interned.clear();
+            }
+
         private:
             /// The trusted packet sequence id to use for the trace file
             const uint32_t trusted_packet_sequence_id;
-- 
2.43.0


From ae80cc04efdbc41c7b0550b5a7363447e62d8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 51/52] fix: tracing a log message made by an observer of
 reaction events crashed

---
 src/extension/TraceController.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index bd43cb3..78cad6f 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -209,7 +209,8 @@ namespace extension {
                                      const LogMessage& msg) {
 
         const auto& msg_stats           = msg.statistics;
-        const auto& created             = log_stats->created;
+        // Tasks that are caused by something without statistics don't have them either
+        const auto created              = log_stats != nullptr ? log_stats->created : ReactionStatistics::Event::now();
         const uint64_t thread_uuid      = thread(created.thread);
         const uint64_t thread_time_uuid = thread_uuid + 1;
 
@@ -296,8 +297,10 @@ namespace extension {
 
             // Write the trace events that happened before the trace started
             auto current_stats = threading::ReactionTask::get_current_task()->statistics;
-            encode_event(ReactionEvent(ReactionEvent::CREATED, current_stats));
-            encode_event(ReactionEvent(ReactionEvent::STARTED, current_stats));
+            if (current_stats != nullptr) {
+                encode_event(ReactionEvent(ReactionEvent::CREATED, current_stats));
+                encode_event(ReactionEvent(ReactionEvent::STARTED, current_stats));
+            }
 
             // Bind new handles
             event_handle = on<Trigger<ReactionEvent>, Pool<TracePool>>().then([this](const ReactionEvent& e) {  //
-- 
2.43.0


From 0bed7598e89f8edf1ba59c0eca5d7b9c74cb37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:34 +0000
Subject: [PATCH 52/52] fix: events and logs of one trace were written to the
 file of the next

---
 src/extension/TraceController.cpp | 18 ++++++++++++------
 src/extension/TraceController.hpp |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index 78cad6f..b04df5c 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -273,6 +273,7 @@ namespace extension {
             event_handle.unbind();
             log_handle.unbind();
             trace_file.close();
+            const auto current = ++session;
 
             // Open a new file in the target location
             trace_file.open(e.file, std::ios::binary);
@@ -303,15 +304,19 @@ namespace extension {
             }
 
             // Bind new handles
-            event_handle = on<Trigger<ReactionEvent>, Pool<TracePool>>().then([this](const ReactionEvent& e) {  //
-                encode_event(e);
+            event_handle = on<Trigger<ReactionEvent>, Pool<TracePool>>().then([this, current](const ReactionEvent& e) {
+                if (session == current) {
+                    encode_event(e);
+                }
             });
             if (e.logs) {
                 log_handle =
-                    on<Trigger<LogMessage>, Pool<TracePool>, Inline::NEVER>().then([this](const LogMessage& msg) {
-                        // Statistics for the log message task itself
-                        auto log_stats = threading::ReactionTask::get_current_task()->statistics;
-                        encode_log(log_stats, msg);
+                    on<Trigger<LogMessage>, Pool<TracePool>, Inline::NEVER>().then([this, current](const LogMessage& msg) {
+                        if (session == current) {
+                            // Statistics for the log message task itself
+                            auto log_stats = threading::ReactionTask::get_current_task()->statistics;
+                            encode_log(log_stats, msg);
+                        }
                     });
             }
         });
@@ -321,6 +326,7 @@ namespace extension {
             event_handle.unbind();
             log_handle.unbind();
             trace_file.close();
+            ++session;
         });
     }
 
diff --git a/src/extension/TraceController.hpp b/src/extension/TraceController.hpp
index 04d7f9a..d2493fc 100644
--- a/src/extension/TraceController.hpp
+++ b/src/extension/TraceController.hpp
@@ -92,6 +92,9 @@ namespace extension {
 
         std::atomic<uint64_t> next_uuid{2};  // Start at 2 as 1 is reserved for the process track descriptor
 
+        /// The number of the current trace, tasks which were made for another one must not write to its file
+        uint64_t session = 0;
+
         ReactionHandle event_handle;
         ReactionHandle log_handle;
 
-- 
2.43.0

