From 1789b2546edb8f0e8ab273e16c4549b55e7962cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 01/42] fix: store reaction callbacks by value so an lvalue
 callable cannot dangle

---
 src/Reactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index f90a464..0e5f155 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -375,7 +375,7 @@ public:
             auto reaction = std::make_shared<threading::Reaction>(
                 reactor,
                 std::move(identifiers),
-                util::CallbackGenerator<DSL, Function>(std::forward<Function>(callback)));
+                util::CallbackGenerator<DSL, std::decay_t<Function>>(std::forward<Function>(callback)));
 
             // Get our tuple from binding our reaction
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
-- 
2.43.0


From 0f9c677407ba3e66772a31ab0befb9b0fcf7989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 02/42] fix: drop tasks for pools that cannot be created during
 shutdown instead of terminating

---
 src/threading/scheduler/Scheduler.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 1419dfe..5d8dc85 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -235,15 +235,24 @@ namespace threading {
             // both call `get_pool()` and store the same pointer; last writer wins, identical
             // value.
             Pool* pool = nullptr;
-            if (task->parent) {
-                pool = task->parent->scheduler_data.load(std::memory_order_acquire);
-                if (pool == nullptr) {
+            try {
+                if (task->parent) {
+                    pool = task->parent->scheduler_data.load(std::memory_order_acquire);
+                    if (pool == nullptr) {
+                        pool = get_pool(task->pool_descriptor).get();
+                        task->parent->scheduler_data.store(pool, std::memory_order_release);
+                    }
+                }
+                else {
                     pool = get_pool(task->pool_descriptor).get();
-                    task->parent->scheduler_data.store(pool, std::memory_order_release);
                 }
             }
-            else {
-                pool = get_pool(task->pool_descriptor).get();
+            catch (const std::invalid_argument&) {
+                // We are shutting down and this pool was never created, so nothing will ever run its tasks.
+                // Drop the task like any other pool that has stopped accepting work, unless it can run right here.
+                if (!task->run_inline || task->group_descriptors.size() > 1) {
+                    return;
+                }
             }
 
             const auto current_pool = Pool::current();
@@ -260,6 +269,11 @@ namespace threading {
                     }
                 }
 
+                // Nowhere to queue the task (see above)
+                if (pool == nullptr) {
+                    return;
+                }
+
                 group->try_submit(std::move(task), pool, !current_pool_idle);
                 return;
             }
-- 
2.43.0


From 07fb59774515df27b1b0441d87f1dd299cd564d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 03/42] fix: a graceful stop arriving late must not restart an
 already stopped persistent pool

---
 src/threading/scheduler/Pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 697fc64..d372f18 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -114,11 +114,13 @@ namespace threading {
                 std::unique_lock<std::mutex> lock(mutex);
 
                 live = true;
-                accept.store(descriptor->persistent, std::memory_order_release);
+                // Stopping is one way, a later weaker stop must not bring a pool that has already been stopped back
+                accept.store(accept.load(std::memory_order_acquire) && descriptor->persistent,
+                             std::memory_order_release);
 
                 switch (type) {
                     case StopType::NORMAL: {
-                        running = descriptor->persistent;
+                        running = running && descriptor->persistent;
                     } break;
                     case StopType::FINAL: {
                         running = false;
-- 
2.43.0


From 704cfdf9d4d3b8f3ef9588b0d5eb21d7b923a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 04/42] fix: notify a multi group waiter again after it failed
 to take its token

---
 src/threading/scheduler/Group.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..b6f95e5 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -140,6 +140,8 @@ namespace threading {
                 free -= h->locked ? 0 : 1;
 
                 if (free < 0) {
+                    // We have consumed our notification without getting a token so we need a new one
+                    handle->notified = false;
                     return false;
                 }
                 if (h == handle) {
-- 
2.43.0


From 9e552dcd2be8e68e8f4efbf1240de2898986a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 05/42] fix: tasks waiting for their groups must not hide
 runnable tasks behind them in a pool

---
 src/threading/scheduler/Pool.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index d372f18..08b9baf 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -402,20 +402,29 @@ namespace threading {
 
                 bool got = false;
                 if (live) {
+                    // Tasks whose locks aren't acquirable yet are set aside and put back afterwards so that they
+                    // don't hide runnable tasks which are queued behind them.
+                    std::vector<Task> blocked;
+                    bool runnable = false;
                     Task task;
-                    got = try_dequeue_task(task);
-                    if (got) {
-                        if (task.lock == nullptr || task.lock->lock()) {
-                            thread_idle[std::this_thread::get_id()] = nullptr;
-                            pool_idle                               = nullptr;
-                            return task;
+                    while (!runnable && try_dequeue_task(task)) {
+                        runnable = task.lock == nullptr || task.lock->lock();
+                        if (!runnable) {
+                            blocked.push_back(std::move(task));
                         }
-                        // The task was dequeued but its lock isn't acquirable. Re-enqueue and
-                        // wait for someone to notify us when the lock state changes.
-                        const std::size_t bucket = queue::priority_index(task.task->priority);
+                    }
+                    for (auto& t : blocked) {
+                        const std::size_t bucket = queue::priority_index(t.task->priority);
                         pending_tasks.fetch_add(1, std::memory_order_release);
-                        buckets[bucket]->enqueue(std::move(task));
+                        buckets[bucket]->enqueue(std::move(t));
+                    }
+                    if (runnable) {
+                        thread_idle[std::this_thread::get_id()] = nullptr;
+                        pool_idle                               = nullptr;
+                        return task;
                     }
+                    // Blocked tasks wait here for someone to notify us when the lock state changes.
+                    got = !blocked.empty();
                 }
                 live = false;
 
-- 
2.43.0


From 008b7779fd576b217484b9d7e29ecd4b363289e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 06/42] fix: group tokens are only handed to waiters that have
 been paid for

Draining a parked waiter without owning a token (opportunistic drains, and undoing a reservation through
release_token) let more tasks of a group run than its concurrency allows. Waiters for a group that has multi group
waiters now queue behind them in order.
---
 src/threading/scheduler/Group.cpp | 217 +++++++++++-------------------
 src/threading/scheduler/Group.hpp |  35 ++---
 2 files changed, 92 insertions(+), 160 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index b6f95e5..bd49762 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -55,8 +55,10 @@ namespace threading {
             return true;
         }
 
-        Group::GroupLock::GroupLock(Group& group, std::shared_ptr<LockHandle> handle)
-            : group(group), handle(std::move(handle)) {}
+        Group::GroupLock::GroupLock(Group& group,
+                                    std::shared_ptr<LockHandle> handle,
+                                    std::shared_ptr<Group> group_keepalive)
+            : group(group), handle(std::move(handle)), keepalive(std::move(group_keepalive)) {}
 
         Group::GroupLock::~GroupLock() {
             std::vector<std::shared_ptr<LockHandle>> to_notify;
@@ -97,34 +99,12 @@ namespace threading {
                 h->notify();
             }
 
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
+            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (park
+            // did the fetch_sub) and is parked waiting to be handed back in. It owns the slot we just
+            // freed and MUST be drained even when slow_pending > 0, otherwise a multi-group slow waiter
+            // that needs this slot to free up deadlocks against it.
             if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
-
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
+                group.drain_one_to_pool();
             }
         }
 
@@ -135,22 +115,26 @@ namespace threading {
 
             const std::lock_guard<std::mutex> lock(group.mutex);
 
-            int free = group.tokens.load(std::memory_order_relaxed);
+            // The number of tokens which must be left for the handles in front of us
+            int ahead = 0;
             for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
-
-                if (free < 0) {
-                    // We have consumed our notification without getting a token so we need a new one
-                    handle->notified = false;
-                    return false;
-                }
                 if (h == handle) {
+                    break;
+                }
+                ahead += h->locked ? 0 : 1;
+            }
+
+            // The fast path doesn't hold the mutex so it can take a token at any point until we have ours
+            int expected = group.tokens.load(std::memory_order_acquire);
+            while (expected > ahead) {
+                if (group.tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
                     handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
                     return true;
                 }
             }
 
+            // We have consumed our notification without getting a token so we need a new one
+            handle->notified = false;
             return false;
         }
 
@@ -187,77 +171,55 @@ namespace threading {
         }
 
         bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
+            // Don't jump ahead of multi-group waiters; if any exist, queue behind them.
+            if (slow_pending.load(std::memory_order_acquire) > 0) {
+                submit_slow(std::move(task), pool, clear_idle);
+                return false;
+            }
+
+            int expected = tokens.load(std::memory_order_acquire);
+            while (expected > 0) {
+                if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
+                    if (slow_pending.load(std::memory_order_acquire) > 0) {
+                        // A multi-group waiter slipped in; restore the token and back off.
+                        release_token();
+                        submit_slow(std::move(task), pool, clear_idle);
+                        return false;
                     }
+                    pool->submit({std::move(task), make_running_lock()}, clear_idle);
+                    return true;
                 }
             }
 
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
+            park(std::move(task), pool, clear_idle);
             return false;
         }
 
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
+        void Group::submit_slow(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
+            auto handle = enqueue_handle(task->id, task->priority, [pool] {
+                const auto current_pool = Pool::current();
+                pool->notify(current_pool == nullptr || !current_pool->is_idle());
+            });
+            pool->submit({std::move(task), std::make_unique<GroupLock>(*this, handle, shared_from_this())}, clear_idle);
+        }
+
+        void Group::park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept {
             const std::size_t bucket = queue::priority_index(task->priority);
             ExternalWaiterRegistration external_waiter;
             if (pool != nullptr) {
                 external_waiter = pool->register_external_waiter();
             }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
-        }
-
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
-            }
-
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
-            }
-
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
+            wait_buckets[bucket].enqueue(WaitEntry{std::move(task), pool, clear_idle, std::move(external_waiter)});
+
+            // Reserve a slot in the signed counter. This is done unconditionally so that a later release always sees
+            // prev < 0 and hands a waiter back in: it is the no-lost-wakeup mechanism.
+            //
+            // Waiters are anonymous. Every reservation made here is paid for exactly once, either by a token that was
+            // free (prev > 0, we drain right here) or by a later release (prev < 0, that release drains), and each
+            // payment starts exactly one of the waiters that were published before it. Nothing may be drained without
+            // such a payment, otherwise more tasks would run than the group allows.
+            if (tokens.fetch_sub(1, std::memory_order_acq_rel) > 0) {
+                drain_one_to_pool();
             }
 
             // The destination pool's "pending idle" latch was set by register_external_waiter
@@ -272,35 +234,16 @@ namespace threading {
             const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
 
             // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
+            // slot (park did the fetch_sub) and is parked waiting to be handed back in.
             // That waiter committed before any slow waiter and now owns the slot we just freed, so it
             // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
+            // slow waiter that needs this very slot to become free again.
             if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
+                drain_one_to_pool();
             }
-
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
+            // No committed fast waiter is owed this slot so it can go to a slow-path waiter.
+            else if (slow_pending.load(std::memory_order_acquire) > 0) {
                 notify_slow_path();
-                return;
-            }
-
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
             }
         }
 
@@ -322,32 +265,24 @@ namespace threading {
             }
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
+        void Group::drain_one_to_pool() noexcept {
             WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
+            for (auto& bucket : wait_buckets) {
+                if (bucket.try_dequeue(entry)) {
                     Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
+                    pool->submit({std::move(entry.task), make_running_lock()}, entry.clear_idle, /*force=*/true);
+                    return;
                 }
             }
-            return {};
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
             return std::make_unique<RunningLock>(*this, shared_from_this());
         }
 
-        std::unique_ptr<Lock> Group::lock(const NUClear::id_t& task_id,
-                                          const int& priority,
-                                          const std::function<void()>& notify) {
+        std::shared_ptr<Group::LockHandle> Group::enqueue_handle(const NUClear::id_t& task_id,
+                                                                 const int& priority,
+                                                                 const std::function<void()>& notify) {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
@@ -364,7 +299,13 @@ namespace threading {
                 }
             }
 
-            return std::make_unique<GroupLock>(*this, handle);
+            return handle;
+        }
+
+        std::unique_ptr<Lock> Group::lock(const NUClear::id_t& task_id,
+                                          const int& priority,
+                                          const std::function<void()>& notify) {
+            return std::make_unique<GroupLock>(*this, enqueue_handle(task_id, priority, notify));
         }
 
     }  // namespace scheduler
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..7b79758 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -63,26 +63,10 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -156,8 +140,11 @@ namespace threading {
                  *
                  * @param group  the reference to the group this lock is for
                  * @param handle the shared state between the group object and the lock objects
+                 * @param group_keepalive keeps the group alive for as long as the lock if provided
                  */
-                GroupLock(Group& group, std::shared_ptr<LockHandle> handle);
+                GroupLock(Group& group,
+                          std::shared_ptr<LockHandle> handle,
+                          std::shared_ptr<Group> group_keepalive = nullptr);
 
                 // Not movable or copyable
                 GroupLock(const GroupLock&)            = delete;
@@ -188,6 +175,8 @@ namespace threading {
                 Group& group;
                 /// The shared state between the group object and the lock objects
                 std::shared_ptr<LockHandle> handle;
+                /// Keeps the group alive for as long as this lock
+                std::shared_ptr<Group> keepalive;
             };
 
             /**
@@ -222,6 +211,7 @@ namespace threading {
              *
              * If a group token is available the task is submitted to the pool immediately.
              * Otherwise the task is queued until a token is released.
+             * If there are slow-path waiters the task queues behind them in priority order.
              *
              * @param task       the reaction task to submit
              * @param pool       the pool to submit to when runnable (non-owning; must outlive the call)
@@ -255,13 +245,14 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
+            std::shared_ptr<LockHandle> enqueue_handle(const NUClear::id_t& task_id,
+                                                       const int& priority,
+                                                       const std::function<void()>& notify);
+            void submit_slow(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle);
+            void park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept;
             void release_token() noexcept;
             void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+            void drain_one_to_pool() noexcept;
             std::unique_ptr<Lock> make_running_lock();
 
             /// Available group tokens (signed when waiters are queued on the fast path)
-- 
2.43.0


From 3055d6efbdff409f33548f63724c7791d5d7b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 07/42] fix: tasks in several groups must not deadlock when a
 higher priority task overtakes them

---
 src/threading/scheduler/CombinedLock.cpp |  5 ++++-
 src/threading/scheduler/Group.cpp        | 12 ++++++++++++
 src/threading/scheduler/Group.hpp        | 14 +++++++++++++-
 src/threading/scheduler/Lock.cpp         |  4 ++++
 src/threading/scheduler/Lock.hpp         | 10 ++++++++++
 5 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/CombinedLock.cpp b/src/threading/scheduler/CombinedLock.cpp
index 263195b..b934b21 100644
--- a/src/threading/scheduler/CombinedLock.cpp
+++ b/src/threading/scheduler/CombinedLock.cpp
@@ -35,10 +35,13 @@ namespace threading {
         }
 
         bool CombinedLock::lock() {
+            bool holding = false;
             for (auto& lock : locks) {
-                if (!lock->lock()) {
+                // Once we hold some of the locks nobody may overtake us for the rest of them
+                if (!(holding ? lock->lock_next() : lock->lock())) {
                     return false;
                 }
+                holding = true;
             }
             return true;
         }
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index bd49762..5beafc6 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -138,6 +138,18 @@ namespace threading {
             return false;
         }
 
+        bool Group::GroupLock::lock_next() {
+            if (!handle->locked) {
+                const std::lock_guard<std::mutex> lock(group.mutex);
+                if (!handle->next) {
+                    group.queue.erase(std::find(group.queue.begin(), group.queue.end(), handle));
+                    handle->next = true;
+                    group.queue.insert(std::lower_bound(group.queue.begin(), group.queue.end(), handle), handle);
+                }
+            }
+            return lock();
+        }
+
         Group::Group(std::shared_ptr<const util::GroupDescriptor> descriptor)
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 7b79758..b29d673 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -75,13 +75,16 @@ namespace threading {
                 LockHandle(const NUClear::id_t& task_id, const int& priority, std::function<void()> notify);
 
                 /**
-                 * Compare two lock handles by comparing their priority and task id
+                 * Compare two lock handles by comparing if they are next, their priority and their task id
                  *
                  * @param other the other lock handle to compare to
                  *
                  * @return true if this lock handle should execute before the other
                  */
                 friend bool operator<(const LockHandle& lhs, const LockHandle& rhs) {
+                    if (lhs.next != rhs.next) {
+                        return lhs.next;
+                    }
                     return lhs.priority == rhs.priority ? lhs.task_id < rhs.task_id : lhs.priority > rhs.priority;
                 }
 
@@ -101,6 +104,8 @@ namespace threading {
                 NUClear::id_t task_id;
                 /// The priority of the reaction that is waiting, higher priorities run first
                 int priority;
+                /// If this lock is held up by this group only and nobody may overtake it
+                bool next{false};
                 /// If this lock has been successfully locked
                 bool locked{false};
                 /// If this lock has been notified that it can lock
@@ -170,6 +175,13 @@ namespace threading {
                  */
                 bool lock() override;
 
+                /**
+                 * Locks the group for this task, or moves it in front of everyone who hasn't been locked.
+                 *
+                 * @return true if the lock was successfully obtained
+                 */
+                bool lock_next() override;
+
             private:
                 /// The group this lock is for
                 Group& group;
diff --git a/src/threading/scheduler/Lock.cpp b/src/threading/scheduler/Lock.cpp
index 0edb857..1ad95bd 100644
--- a/src/threading/scheduler/Lock.cpp
+++ b/src/threading/scheduler/Lock.cpp
@@ -29,6 +29,10 @@ namespace threading {
             return true;
         }
 
+        bool Lock::lock_next() {
+            return lock();
+        }
+
     }  // namespace scheduler
 }  // namespace threading
 }  // namespace NUClear
diff --git a/src/threading/scheduler/Lock.hpp b/src/threading/scheduler/Lock.hpp
index 5f73765..083196c 100644
--- a/src/threading/scheduler/Lock.hpp
+++ b/src/threading/scheduler/Lock.hpp
@@ -51,6 +51,16 @@ namespace threading {
              * @return True if the lock was successfully acquired, false otherwise.
              */
             virtual bool lock();
+
+            /**
+             * The same as lock, but if this lock can't be acquired it will be next in line for it.
+             *
+             * This is used by a holder of other locks. If someone who doesn't hold those locks were able to get in front
+             * of it they could end up waiting for each other.
+             *
+             * @return True if the lock was successfully acquired, false otherwise.
+             */
+            virtual bool lock_next();
         };
 
     }  // namespace scheduler
-- 
2.43.0


From 6e285a818dcfa569c66745eaca29a9ecba7d8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 08/42] fix: a stopped pool must neither wait forever nor
 strand the group tokens of the tasks it never runs

---
 docs/explanation/scheduler.md    |  2 +-
 src/threading/scheduler/Pool.cpp | 79 +++++++++++++++++---------------
 src/threading/scheduler/Pool.hpp | 12 +++--
 3 files changed, 50 insertions(+), 43 deletions(-)

diff --git a/docs/explanation/scheduler.md b/docs/explanation/scheduler.md
index 3d14a8e..4f22625 100644
--- a/docs/explanation/scheduler.md
+++ b/docs/explanation/scheduler.md
@@ -195,7 +195,7 @@ The producer side matches `TaskQueue`.
 The consumer side is simpler: a plain (non-atomic) read index, no CAS on dequeue, and immediate block retirement to the graveyard when advancing.
 
 `try_dequeue` must only be called from the designated consumer thread.
-Force shutdown from another thread delegates queue draining to that consumer via `discard_queues_requested`.
+Force shutdown from another thread delegates queue draining to that consumer via `discard_queues`; the stopping thread does not wait for it.
 
 ### Shared block helpers
 
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 08b9baf..b350f3e 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -96,10 +96,15 @@ namespace threading {
             active = descriptor->counts_for_idle ? n_threads : 0;
 
             if (descriptor == dsl::word::MainThread::descriptor()) {
+                /*mutex scope*/ {
+                    const std::lock_guard<std::mutex> lock(mutex);
+                    workers = 1;
+                }
                 run();
             }
             else {
                 const std::lock_guard<std::mutex> lock(mutex);
+                workers = static_cast<std::size_t>(n_threads);
                 for (int i = 0; i < n_threads; ++i) {
                     threads.emplace_back(std::make_unique<std::thread>(&Pool::run, this));
                 }
@@ -131,26 +136,16 @@ namespace threading {
                         accept.store(false, std::memory_order_release);
                         running = false;
 
-                        // MPSC buckets permit only one consumer. A cross-thread FORCE stop (e.g.
-                        // PowerPlant::shutdown(true) from TestBase's timeout thread against a
-                        // MainThread or concurrency-1 pool) must delegate queue draining to that
-                        // worker instead of calling try_dequeue here.
-                        const bool mpsc_consumer_alive =
-                            single_consumer && consumer_thread_id != std::thread::id{};
-                        const bool on_mpsc_consumer =
-                            mpsc_consumer_alive && std::this_thread::get_id() == consumer_thread_id;
-
-                        if (mpsc_consumer_alive && !on_mpsc_consumer) {
-                            discard_queues_requested.store(true, std::memory_order_release);
-                            condition.notify_all();
-                            condition.wait(lock, [this] {
-                                return !discard_queues_requested.load(std::memory_order_acquire);
-                            });
-                            pending_tasks.store(0, std::memory_order_relaxed);
-                        }
-                        else {
+                        // From here on everything that is still queued is discarded rather than run. Any worker will
+                        // do so before it looks for its next task, and no worker can be looking for a task while we
+                        // hold the mutex.
+                        discard_queues = true;
+
+                        // MPSC buckets permit only one consumer, so if it is alive and it isn't us then draining has
+                        // to be left to it. Don't wait for it to happen: that worker may be busy for a long time, or
+                        // may itself be stopping the pool that this thread is working for.
+                        if (!single_consumer || workers == 0 || std::this_thread::get_id() == consumer_thread_id) {
                             drain_queues(drained);
-                            pending_tasks.store(0, std::memory_order_relaxed);
                         }
                     } break;
                 }
@@ -184,7 +179,14 @@ namespace threading {
             pending_tasks.fetch_add(1, std::memory_order_release);
             buckets[bucket]->enqueue(std::move(task));
 
+            // If every worker has already left then nothing would ever run (or destroy) this task, and whatever it
+            // holds (e.g. a group token) would never be given back. Destroy it once the mutex is released.
+            std::vector<Task> abandoned;
             const std::lock_guard<std::mutex> lock(mutex);
+            if (terminated) {
+                drain_queues(abandoned);
+                return;
+            }
             if (clear_idle) {
                 pool_idle = nullptr;
             }
@@ -287,7 +289,10 @@ namespace threading {
         }
 
         void Pool::run() {
-            consumer_thread_id = std::this_thread::get_id();
+            if (single_consumer) {
+                const std::lock_guard<std::mutex> lock(mutex);
+                consumer_thread_id = std::this_thread::get_id();
+            }
             Pool::current_pool = this;
             try {
                 while (true) {
@@ -297,7 +302,6 @@ namespace threading {
             }
             catch (const ShutdownThreadException&) {
                 Pool::current_pool = nullptr;
-                consumer_thread_id = std::thread::id{};
                 return;
             }
         }
@@ -312,30 +316,28 @@ namespace threading {
             return false;
         }
 
-        void Pool::drain_queues(std::vector<Task>& out) const {
+        void Pool::drain_queues(std::vector<Task>& out) {
+            // Only the tasks which were actually removed are uncounted, a submit which is still under way has been counted
+            // but may not have reached the queue yet.
             Task task;
-            for (const auto& bucket : buckets) {
-                while (bucket->try_dequeue(task)) {
-                    out.push_back(std::move(task));
-                }
+            while (try_dequeue_task(task)) {
+                out.push_back(std::move(task));
             }
         }
 
         Pool::Task Pool::get_task() {
             std::unique_lock<std::mutex> lock(mutex);
             while (running || pending_tasks.load(std::memory_order_acquire) > 0
-                   || external_waiters.load(std::memory_order_acquire) > 0
-                   || discard_queues_requested.load(std::memory_order_acquire)) {
-                if (discard_queues_requested.load(std::memory_order_acquire)) {
+                   || external_waiters.load(std::memory_order_acquire) > 0) {
+                if (discard_queues) {
                     std::vector<Task> discarded;
                     drain_queues(discarded);
-                    pending_tasks.store(0, std::memory_order_relaxed);
-                    discard_queues_requested.store(false, std::memory_order_release);
-                    condition.notify_all();
-                    lock.unlock();
-                    discarded.clear();
-                    lock.lock();
-                    continue;
+                    if (!discarded.empty()) {
+                        lock.unlock();
+                        discarded.clear();
+                        lock.lock();
+                        continue;
+                    }
                 }
 
                 // A waiter was parked for this pool since the last time this worker looked, so it
@@ -401,7 +403,7 @@ namespace threading {
                 }
 
                 bool got = false;
-                if (live) {
+                if (live && !discard_queues) {
                     // Tasks whose locks aren't acquirable yet are set aside and put back afterwards so that they
                     // don't hide runnable tasks which are queued behind them.
                     std::vector<Task> blocked;
@@ -439,12 +441,13 @@ namespace threading {
 
                 condition.wait(lock, [this] {
                     return live || pending_idle.load(std::memory_order_acquire)
-                           || discard_queues_requested.load(std::memory_order_acquire)
                            || (!running && pending_tasks.load(std::memory_order_acquire) == 0
                                && external_waiters.load(std::memory_order_acquire) == 0);
                 });
             }
 
+            terminated = --workers == 0;
+            consumer_thread_id = std::thread::id{};
             condition.notify_all();
             throw ShutdownThreadException();
         }
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index b2004fb..20cc09f 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -241,7 +241,7 @@ namespace threading {
              *
              * @param out the drained tasks (destruction deferred by the caller)
              */
-            void drain_queues(std::vector<Task>& out) const;
+            void drain_queues(std::vector<Task>& out);
 
             /**
              * Get an idle task to execute or hold.
@@ -350,10 +350,14 @@ namespace threading {
             bool live = true;
             /// True when this pool's buckets use MPSCQueue (single consumer).
             bool single_consumer = false;
-            /// Worker thread that owns MPSC dequeue; default until run() sets it.
+            /// Worker thread that owns MPSC dequeue; default when it is not running. Protected by the mutex.
             std::thread::id consumer_thread_id;
-            /// Set by a non-consumer FORCE stop to request the worker discard queued tasks.
-            std::atomic<bool> discard_queues_requested{false};
+            /// Set by a FORCE stop, queued tasks are discarded by the workers instead of being run.
+            bool discard_queues = false;
+            /// The number of worker threads that have been started and have not yet left the pool.
+            std::size_t workers = 0;
+            /// True once the pool has been stopped and all of its workers have left, nothing will be run anymore.
+            bool terminated = false;
 
             /// The mutex which protects idle tasks and the live flag
             mutable std::mutex mutex;
-- 
2.43.0


From 23ec122c5e2acbcbdb171e3a5e67848e24d84ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 09/42] fix: a worker that only found blocked tasks must become
 idle once those are gone

---
 src/threading/scheduler/Group.cpp |  3 +--
 src/threading/scheduler/Pool.cpp  | 19 ++++++++++++++++---
 src/threading/scheduler/Pool.hpp  | 11 +++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 5beafc6..5ecb85b 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -209,8 +209,7 @@ namespace threading {
 
         void Group::submit_slow(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
             auto handle = enqueue_handle(task->id, task->priority, [pool] {
-                const auto current_pool = Pool::current();
-                pool->notify(current_pool == nullptr || !current_pool->is_idle());
+                pool->notify(!Pool::current_is_idle());
             });
             pool->submit({std::move(task), std::make_unique<GroupLock>(*this, handle, shared_from_this())}, clear_idle);
         }
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index b350f3e..315751d 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -283,6 +283,10 @@ namespace threading {
             return current_pool == nullptr ? nullptr : current_pool->shared_from_this();
         }
 
+        bool Pool::current_is_idle() {
+            return current_pool != nullptr && current_pool->is_idle();
+        }
+
         bool Pool::is_idle() const {
             const std::lock_guard<std::mutex> lock(mutex);
             return pool_idle != nullptr;
@@ -402,7 +406,8 @@ namespace threading {
                     }
                 }
 
-                bool got = false;
+                bool got           = false;
+                const bool checked = live;
                 if (live && !discard_queues) {
                     // Tasks whose locks aren't acquirable yet are set aside and put back afterwards so that they
                     // don't hide runnable tasks which are queued behind them.
@@ -433,17 +438,25 @@ namespace threading {
                 // Only account for idle when we genuinely found nothing; threads whose locks
                 // fail are not idle, they are blocked waiting for the lock state to change.
                 if (!got) {
+                    // Whoever is blocked is waiting for tasks that have been taken by now, so they are idle as well
+                    if (checked && blocked_workers > 0) {
+                        ++unblocked;
+                        condition.notify_all();
+                    }
                     auto idle_task = get_idle_task();
                     if (idle_task.task != nullptr) {
                         return idle_task;
                     }
                 }
 
-                condition.wait(lock, [this] {
-                    return live || pending_idle.load(std::memory_order_acquire)
+                const std::size_t last_unblocked = unblocked;
+                blocked_workers += got ? 1 : 0;
+                condition.wait(lock, [&] {
+                    return live || (got && unblocked != last_unblocked) || pending_idle.load(std::memory_order_acquire)
                            || (!running && pending_tasks.load(std::memory_order_acquire) == 0
                                && external_waiters.load(std::memory_order_acquire) == 0);
                 });
+                blocked_workers -= got ? 1 : 0;
             }
 
             terminated = --workers == 0;
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index 20cc09f..3a98619 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -194,6 +194,13 @@ namespace threading {
              */
             static std::shared_ptr<Pool> current();
 
+            /**
+             * Returns if the current thread belongs to a pool and that pool is idle.
+             *
+             * @return true if the current thread is a scheduler thread whose pool is idle
+             */
+            static bool current_is_idle();
+
             /**
              * Returns if the current thread is idle.
              *
@@ -348,6 +355,10 @@ namespace threading {
             bool idle_relevant() const;
             /// A boolean which is set to true when the queue is modified and set to false when there was no work to do
             bool live = true;
+            /// The number of workers which are waiting because all they found were tasks that are still blocked
+            std::size_t blocked_workers = 0;
+            /// Changed to send the blocked workers back to check for idle as there is nothing left to be blocked by
+            std::size_t unblocked = 0;
             /// True when this pool's buckets use MPSCQueue (single consumer).
             bool single_consumer = false;
             /// Worker thread that owns MPSC dequeue; default when it is not running. Protected by the mutex.
-- 
2.43.0


From fc9019c0a75c5986fc99ff66b07ac94d8bd78e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 10/42] fix: binding or unbinding a reaction while its type is
 being emitted must not corrupt the list of reactions

---
 docs/reference/extensions/data-stores.md |  4 +-
 src/dsl/operation/TypeBind.hpp           | 16 ++-----
 src/dsl/word/Once.hpp                    |  6 +++
 src/dsl/word/emit/Inline.hpp             |  3 +-
 src/dsl/word/emit/Local.hpp              |  3 +-
 src/threading/Reaction.cpp               |  3 ++
 src/util/TypeList.hpp                    | 53 +++++++++++++++++++++---
 7 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/docs/reference/extensions/data-stores.md b/docs/reference/extensions/data-stores.md
index 0104219..aecd50a 100644
--- a/docs/reference/extensions/data-stores.md
+++ b/docs/reference/extensions/data-stores.md
@@ -108,6 +108,7 @@ using TypeCallbackStore = util::TypeList<TriggeringType, TriggeringType, std::sh
 - Compile-time dispatch — no runtime lookup needed
 - Modified during `bind` (add reaction) and unbind (remove reaction)
 - Read during emit to find which reactions to trigger
+- `get` returns the list as it is at that moment, later changes do not affect a list that is being iterated
 
 **Usage:** When a word's `bind` method is called, it adds the reaction to the appropriate `TypeCallbackStore`.
 When data of that type is emitted, the emit handler iterates this store and creates a task for each registered reaction.
@@ -117,7 +118,8 @@ When data of that type is emitted, the emit handler iterates this store and crea
 TypeCallbackStore<T>::add(reaction);
 
 // During emit
-for (auto& reaction : TypeCallbackStore<T>::get()) {
+const auto reactions = TypeCallbackStore<T>::get();
+for (const auto& reaction : *reactions) {
     // Create and submit a task for this reaction
 }
 ```
diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..8822914 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -23,7 +23,7 @@
 #ifndef NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 #define NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 
-#include <algorithm>
+#include <memory>
 
 #include "../store/TypeCallbackStore.hpp"
 
@@ -68,21 +68,13 @@ namespace dsl {
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
-                        [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
                     // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
+                    store::TypeCallbackStore<DataType>::remove_if(
+                        [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::add(reaction);
             }
         };
 
diff --git a/src/dsl/word/Once.hpp b/src/dsl/word/Once.hpp
index 7699971..c1f1e4d 100644
--- a/src/dsl/word/Once.hpp
+++ b/src/dsl/word/Once.hpp
@@ -39,6 +39,12 @@ namespace dsl {
          */
         struct Once : Single {
 
+            // Single stops us from running while there is another task, but not once that one is gone.
+            template <typename DSL>
+            static bool precondition(const threading::ReactionTask& task) {
+                return Single::precondition<DSL>(task) && task.parent->is_enabled();
+            }
+
             // Post condition to unbind this reaction.
             template <typename DSL>
             static void post_run(threading::ReactionTask& task) {
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..a9cd1ec 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -58,7 +58,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
                         // Set our thread local store data each time (as during inline it can be overwritten)
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
                         powerplant.submit(reaction->get_task(true));
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..862c368 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -53,7 +53,8 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
 
                         // Set our thread local store data
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..bc3d6b8 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // An emit which is under way may have found this reaction before it was removed
+        enabled = false;
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/util/TypeList.hpp b/src/util/TypeList.hpp
index 8473c55..87f56f7 100644
--- a/src/util/TypeList.hpp
+++ b/src/util/TypeList.hpp
@@ -23,8 +23,10 @@
 #ifndef NUCLEAR_UTIL_TYPELIST_HPP
 #define NUCLEAR_UTIL_TYPELIST_HPP
 
+#include <algorithm>
 #include <memory>
 #include <mutex>
+#include <utility>
 #include <vector>
 
 namespace NUClear {
@@ -42,23 +44,62 @@ namespace util {
         TypeList operator=(TypeList&& /*other*/) noexcept = delete;
 
     private:
-        /// The data variable where the data is stored for this map key
-        static std::vector<Value> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// The data variable where the data is stored for this map key, a list that has been published is never modified
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+        static std::shared_ptr<const std::vector<Value>> data;
+        /// Protects the data variable
+        static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     public:
         /**
          * Gets the list that is stored in this type location.
          *
-         * @return A reference to the vector stored in this location
+         * Adding to or removing from the list does not affect a list that has already been returned.
+         *
+         * @return the values which are stored in this location at this point in time
+         */
+        static std::shared_ptr<const std::vector<Value>> get() {
+            const std::lock_guard<std::mutex> lock(mutex);
+            return data != nullptr ? data : std::make_shared<const std::vector<Value>>();
+        }
+
+        /**
+         * Adds a value to the end of the list in this type location.
+         *
+         * @param value the value to add
          */
-        static std::vector<Value>& get() {
-            return data;
+        static void add(const Value& value) {
+            const std::lock_guard<std::mutex> lock(mutex);
+            auto list = data != nullptr ? std::make_shared<std::vector<Value>>(*data)
+                                        : std::make_shared<std::vector<Value>>();
+            list->push_back(value);
+            data = std::move(list);
+        }
+
+        /**
+         * Removes the values that match the predicate from the list in this type location.
+         *
+         * @param predicate the function which returns true for the values to be removed
+         */
+        template <typename Predicate>
+        static void remove_if(const Predicate& predicate) {
+            // Replaced list is destroyed once the mutex is released, as destroying the values may end up back here
+            std::shared_ptr<const std::vector<Value>> old;
+            const std::lock_guard<std::mutex> lock(mutex);
+            if (data != nullptr) {
+                auto list = std::make_shared<std::vector<Value>>(*data);
+                list->erase(std::remove_if(list->begin(), list->end(), predicate), list->end());
+                old = std::exchange(data, std::move(list));
+            }
         }
     };
 
     /// Initialize our type list data
     template <typename MapID, typename Key, typename Value>
-    std::vector<Value> TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+    std::shared_ptr<const std::vector<Value>> TypeList<MapID, Key, Value>::data;
+    template <typename MapID, typename Key, typename Value>
+    std::mutex TypeList<MapID, Key, Value>::mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
 }  // namespace util
 }  // namespace NUClear
-- 
2.43.0


From 365b09e84d8bca9a02cb13bc17eade485a73c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 11/42] fix: reactions can be bound from several threads at
 once

---
 src/Reactor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index 0e5f155..d58cc15 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string>
 #include <tuple>
@@ -186,6 +187,8 @@ public:
 
 private:
     std::vector<threading::ReactionHandle> reaction_handles;
+    /// Protects the reaction handles, reactions can be bound at any time and from any thread
+    std::mutex reaction_handles_mutex;
 
 public:
     /// The powerplant that this reactor is running in
@@ -381,7 +384,10 @@ public:
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
             auto handle = threading::ReactionHandle(reaction);
-            reactor.reaction_handles.push_back(handle);
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
+                reactor.reaction_handles.push_back(handle);
+            }
 
             // Return the arguments to the user (if there is only 1 we unwrap it for them since this is the most common
             // case)
-- 
2.43.0


From d49a0ce74402f5a0b5483d9840ecd0d54b55d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 12/42] fix: post run hooks must also run when the callback
 throws

---
 src/util/CallbackGenerator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 93ada18..ea1eb21 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -134,8 +134,15 @@ namespace util {
                 try {
                     auto scope = DSL::scope(task);             // Acquire the scope
                     DSL::pre_run(task);                        // Pre run tasks
-                    util::apply_relevant(c, std::move(data));  // Run the callback
-                    DSL::post_run(task);                       // Post run tasks
+                    try {
+                        util::apply_relevant(c, std::move(data));  // Run the callback
+                    }
+                    catch (...) {
+                        if (task.statistics != nullptr) {
+                            task.statistics->exception = std::current_exception();
+                        }
+                    }
+                    DSL::post_run(task);                       // Post run tasks, also when the callback failed
                     std::ignore = scope;                       // Ignore unused variable warning
                 }
                 catch (...) {
-- 
2.43.0


From 79d0481542e609d1203ef91232c47f831d832db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 13/42] fix: concurrent emits must not corrupt the history kept
 for a reaction using Last

---
 src/util/CallbackGenerator.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index ea1eb21..4b3d7e2 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 #define NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 
+#include <mutex>
 #include <type_traits>
 
 #include "../dsl/word/emit/Inline.hpp"
@@ -62,9 +63,10 @@ namespace util {
                               const Sequence<DIndex...>& /*d*/,
                               const Sequence<Index...>& /*i*/) {
 
-            // Merge our transient data
+            // Merge our transient data, tasks for the same reaction can be generated by several threads at once
+            const std::lock_guard<std::mutex> lock(transients->mutex);
             unpack(MergeTransients<std::remove_reference_t<decltype(std::get<DIndex>(data))>>::merge(
-                std::get<Index>(*transients),
+                std::get<Index>(transients->data),
                 std::get<DIndex>(data))...);
         }
 
@@ -163,8 +165,13 @@ namespace util {
         }
 
         Function callback;
-        std::shared_ptr<typename TransientDataElements<DSL>::type> transients{
-            std::make_shared<typename TransientDataElements<DSL>::type>()};
+
+        /// The transient data which is kept between the tasks of the reaction
+        struct Transients {
+            std::mutex mutex;
+            typename TransientDataElements<DSL>::type data;
+        };
+        std::shared_ptr<Transients> transients{std::make_shared<Transients>()};
     };
 
 }  // namespace util
-- 
2.43.0


From f8cb4dd31eb30df2f4db543a48601d7b8c7e8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:30 +0000
Subject: [PATCH 14/42] fix: don't abandon a queue block that was not seen full

A dequeue looked at the write index of the block, then at whether a next block was linked. When producers
filled the block in between it was left behind with everything they had put into it, which was then lost.
---
 src/threading/scheduler/queue/MPSCQueue.hpp | 7 +++++--
 src/threading/scheduler/queue/TaskQueue.hpp | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..c13a5b8 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -159,8 +159,11 @@ namespace threading {
                             return true;
                         }
 
-                        // Block drained from this consumer's perspective. Try to move to the next.
-                        Block* next = head_block->next.load(std::memory_order_acquire);
+                        // Block drained from this consumer's perspective. Try to move to the next. Only a block we have
+                        // seen full can be left behind, otherwise producers may have put more into it (and linked the
+                        // next one) since we looked.
+                        Block* next =
+                            published < BLOCK_SIZE ? nullptr : head_block->next.load(std::memory_order_acquire);
                         if (next == nullptr) {
                             // If a producer has already overflowed past BLOCK_SIZE we know they're
                             // mid-way through linking the next block; wait briefly for it to appear.
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..05489ba 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -149,9 +149,11 @@ namespace threading {
                     while (true) {
                         Block* block = head.load(std::memory_order_acquire);
 
+                        // The read index has to be looked at first. The write index seen afterwards then shows that there
+                        // was a moment in which everything written had been read.
+                        std::size_t read_index = block->read.load(std::memory_order_acquire);
                         const std::size_t published =
                             std::min(block->write.load(std::memory_order_acquire), BLOCK_SIZE);
-                        std::size_t read_index = block->read.load(std::memory_order_relaxed);
 
                         if (read_index >= published) {
                             if (block->consumed.load(std::memory_order_acquire) < published) {
@@ -159,7 +161,10 @@ namespace threading {
                                 std::this_thread::yield();
                             }
                             else {
-                                Block* next = block->next.load(std::memory_order_acquire);
+                                // Only a block we have seen full can be left behind, otherwise producers may have put
+                                // more into it (and linked the next one) since we looked.
+                                Block* next =
+                                    published < BLOCK_SIZE ? nullptr : block->next.load(std::memory_order_acquire);
                                 if (next == nullptr) {
                                     // Producer may still be writing the first slot of an empty-looking block.
                                     if (published == 0 && block->write.load(std::memory_order_acquire) > 0) {
-- 
2.43.0


From 886fc2e543ab44656c15989873ceba9159e4bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 15/42] fix: free the blocks of the task queues while they are
 in use

Retired blocks were kept until the queue was destroyed, so a running system kept a block for every 64 tasks it
ever ran. They are now freed once the retiring consumer is the only one using the queue.
---
 src/threading/scheduler/queue/MPSCQueue.hpp   |  8 +-
 src/threading/scheduler/queue/TaskQueue.hpp   | 10 ++-
 .../scheduler/queue/detail/block_ops.hpp      | 77 ++++++++++++++++---
 3 files changed, 79 insertions(+), 16 deletions(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index c13a5b8..e747ea4 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -112,6 +112,7 @@ namespace threading {
                  * @param item the value to move into the queue
                  */
                 void enqueue(T&& item) override {
+                    const detail::BlockUser user(users);
                     while (true) {
                         Block*            block = tail_block.load(std::memory_order_acquire);
                         const std::size_t index = block->write.fetch_add(1, std::memory_order_relaxed);
@@ -141,6 +142,7 @@ namespace threading {
                  * @return true if `out` was populated; false if the queue was empty
                  */
                 bool try_dequeue(T& out) override {
+                    const detail::BlockUser user(users);
                     while (true) {
                         const std::size_t write_observed = head_block->write.load(std::memory_order_acquire);
                         const std::size_t published      = std::min(write_observed, BLOCK_SIZE);
@@ -180,7 +182,7 @@ namespace threading {
                             // it (e.g. one mid-way through link_next_block) doesn't touch freed memory.
                             Block* old = head_block;
                             head_block = next;
-                            detail::retire_block(graveyard, old);
+                            detail::retire_block(graveyard, old, users);
                         }
                     }
                 }
@@ -235,8 +237,10 @@ namespace threading {
                 Block* head_block;
                 /// Producer-shared tail pointer. Atomic because any number of producers chase it.
                 std::atomic<Block*> tail_block;
-                /// Linked list of retired blocks that are kept alive until the queue is destroyed.
+                /// Linked list of retired blocks that are kept alive while other operations may still use them.
                 std::atomic<Block*> graveyard;
+                /// The number of operations which are under way, blocks are only deleted while there is just one.
+                std::atomic<std::size_t> users{0};
             };
 
             template <typename T>
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index 05489ba..9d13099 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -43,7 +43,7 @@ namespace threading {
              * Lock-free multi-producer multi-consumer unbounded FIFO queue.
              *
              * Storage is organised in fixed-size blocks linked in a list. Fully drained blocks are
-             * retired to a graveyard and deleted when the queue is destroyed. Per-producer FIFO is
+             * retired to a graveyard and deleted once no other operation is under way. Per-producer FIFO is
              * preserved; cross-producer ordering is not guaranteed.
              *
              * Progress guarantees:
@@ -116,6 +116,7 @@ namespace threading {
                  * @param item the value to move into the queue
                  */
                 void enqueue(T&& item) override {
+                    const detail::BlockUser user(users);
                     while (true) {
                         Block* block = tail.load(std::memory_order_acquire);
                         const std::size_t index = block->write.fetch_add(1, std::memory_order_relaxed);
@@ -146,6 +147,7 @@ namespace threading {
                  * @return true if `out` was populated; false if the queue was empty
                  */
                 bool try_dequeue(T& out) override {
+                    const detail::BlockUser user(users);
                     while (true) {
                         Block* block = head.load(std::memory_order_acquire);
 
@@ -182,7 +184,7 @@ namespace threading {
                                     // we own its retirement. try_reclaim_block() only retires when it
                                     // wins this same head CAS; without retiring here the block would
                                     // be unreachable from both head and the graveyard and thus leak.
-                                    detail::retire_block(graveyard, block);
+                                    detail::retire_block(graveyard, block, users);
                                 }
                             }
                         }
@@ -290,13 +292,15 @@ namespace threading {
                         return;
                     }
                     if (head.compare_exchange_strong(head_ptr, next, std::memory_order_release, std::memory_order_relaxed)) {
-                        detail::retire_block(graveyard, block);
+                        detail::retire_block(graveyard, block, users);
                     }
                 }
 
                 std::atomic<Block*> head;
                 std::atomic<Block*> tail;
                 std::atomic<Block*> graveyard;
+                /// The number of operations which are under way, blocks are only deleted while there is just one.
+                std::atomic<std::size_t> users{0};
             };
 
             template <typename T>
diff --git a/src/threading/scheduler/queue/detail/block_ops.hpp b/src/threading/scheduler/queue/detail/block_ops.hpp
index 3042274..1b0af32 100644
--- a/src/threading/scheduler/queue/detail/block_ops.hpp
+++ b/src/threading/scheduler/queue/detail/block_ops.hpp
@@ -23,6 +23,7 @@
 #define NUCLEAR_THREADING_SCHEDULER_QUEUE_DETAIL_BLOCK_OPS_HPP
 
 #include <atomic>
+#include <cstddef>
 #include <memory>
 
 namespace NUClear {
@@ -60,26 +61,41 @@ namespace threading {
                 }
 
                 /**
-                 * Retire a fully drained block onto the graveyard list for deferred deletion.
-                 *
-                 * Producers can still be operating on a block after the consumer advances head past it
-                 * (e.g. a producer that loaded the tail before it advanced). To avoid use-after-free we
-                 * never delete blocks while the queue is live; they are kept on a graveyard list and freed
-                 * in the destructor. In steady state the graveyard length is bounded by the peak number of
-                 * in-flight blocks.
+                 * Counts an operation on the queue for as long as it may hold pointers to the queue's blocks.
+                 */
+                class BlockUser {
+                public:
+                    explicit BlockUser(std::atomic<std::size_t>& users) : users(users) {
+                        users.fetch_add(1, std::memory_order_acq_rel);
+                    }
+                    ~BlockUser() {
+                        users.fetch_sub(1, std::memory_order_acq_rel);
+                    }
+                    BlockUser(const BlockUser&)            = delete;
+                    BlockUser(BlockUser&&)                 = delete;
+                    BlockUser& operator=(const BlockUser&) = delete;
+                    BlockUser& operator=(BlockUser&&)      = delete;
+
+                private:
+                    std::atomic<std::size_t>& users;
+                };
+
+                /**
+                 * Push a list of blocks onto the graveyard list.
                  *
                  * @tparam Block the queue block type
                  *
                  * @param graveyard atomic head of the graveyard list
-                 * @param block     the block to retire (must not contain live payloads)
+                 * @param first     the first block of the list
+                 * @param last      the last block of the list (linked by graveyard_next)
                  */
                 template <typename Block>
-                void retire_block(std::atomic<Block*>& graveyard, Block* block) {
+                void bury_blocks(std::atomic<Block*>& graveyard, Block* first, Block* last) {
                     Block* head_graveyard = graveyard.load(std::memory_order_acquire);
                     while (true) {
-                        block->graveyard_next = head_graveyard;
+                        last->graveyard_next = head_graveyard;
                         if (graveyard.compare_exchange_weak(head_graveyard,
-                                                            block,
+                                                            first,
                                                             std::memory_order_release,
                                                             std::memory_order_relaxed)) {
                             return;
@@ -87,6 +103,45 @@ namespace threading {
                     }
                 }
 
+                /**
+                 * Retire a fully drained block onto the graveyard list for deferred deletion.
+                 *
+                 * Producers can still be operating on a block after the consumer advances head past it
+                 * (e.g. a producer that loaded the tail before it advanced). To avoid use-after-free blocks
+                 * are kept on a graveyard list until a retiring consumer finds that it is the only user of
+                 * the queue. Nobody else can hold a pointer to a retired block then, and as neither head nor
+                 * tail lead to it anymore nobody will get one. Whatever is left is freed in the destructor.
+                 *
+                 * @tparam Block the queue block type
+                 *
+                 * @param graveyard atomic head of the graveyard list
+                 * @param block     the block to retire (must not contain live payloads)
+                 * @param users     the number of operations under way on the queue, including the caller's
+                 */
+                template <typename Block>
+                void retire_block(std::atomic<Block*>& graveyard, Block* block, std::atomic<std::size_t>& users) {
+                    bury_blocks(graveyard, block, block);
+
+                    // Take everything that has been retired so far, only then look if there are other users
+                    Block* dead = graveyard.exchange(nullptr, std::memory_order_acq_rel);
+                    if (dead == nullptr) {
+                        return;
+                    }
+                    if (users.fetch_add(0, std::memory_order_acq_rel) == 1) {
+                        while (dead != nullptr) {
+                            const std::unique_ptr<Block> buried(dead);
+                            dead = buried->graveyard_next;
+                        }
+                    }
+                    else {
+                        Block* last = dead;
+                        while (last->graveyard_next != nullptr) {
+                            last = last->graveyard_next;
+                        }
+                        bury_blocks(graveyard, dead, last);
+                    }
+                }
+
                 /**
                  * Attempt to link a newly allocated successor block onto a full block.
                  *
-- 
2.43.0


From 86be1d802edbbee6dcd6a8c8ed63b17433f6da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 16/42] fix: a Buffer limit dropped messages although there was
 room

Two emits which created their tasks at the same time each saw the other's
task as well as their own, and both were rejected although the limit allowed
one of them. A Once or Single reaction then ran for neither. Decide by how
many tasks there were before this one was created.
---
 src/dsl/word/Buffer.hpp        | 4 ++--
 src/threading/ReactionTask.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dsl/word/Buffer.hpp b/src/dsl/word/Buffer.hpp
index 8cf395a..72e3f7d 100644
--- a/src/dsl/word/Buffer.hpp
+++ b/src/dsl/word/Buffer.hpp
@@ -48,8 +48,8 @@ namespace dsl {
 
             template <typename DSL>
             static bool precondition(const threading::ReactionTask& task) {
-                // We only run if there are less than the target number of active tasks
-                return task.parent->active_tasks.load(std::memory_order_acquire) < (n + 1);
+                // We only run if there were less than the target number of active tasks before this one
+                return task.prior_tasks < n;
             }
         };
 
diff --git a/src/threading/ReactionTask.hpp b/src/threading/ReactionTask.hpp
index b559d0c..2f85ed5 100644
--- a/src/threading/ReactionTask.hpp
+++ b/src/threading/ReactionTask.hpp
@@ -91,7 +91,7 @@ namespace threading {
             , statistics(make_statistics()) {
             // Increment the number of active tasks
             if (parent != nullptr) {
-                parent->active_tasks.fetch_add(1, std::memory_order_release);
+                prior_tasks = parent->active_tasks.fetch_add(1, std::memory_order_acq_rel);
             }
 
             // Calculate inline running
@@ -131,6 +131,8 @@ namespace threading {
         std::shared_ptr<Reaction> parent;
         /// The task id of this task (the sequence number of this particular task)
         NUClear::id_t id;
+        /// The number of tasks of the parent reaction which already existed when this task was created
+        int prior_tasks{0};
         /// If the task should execute inline
         bool run_inline{false};
 
-- 
2.43.0


From 10fdaf3d502458510481ffe02e52d0a19c42c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 17/42] fix: unbinding a reaction while it is still being bound
 was a data race

The first word of a reaction which is bound publishes it, so it can run (and
when it is Once unbind itself) while the rest of its words are still being
bound. The list of unbinders and emit_stats were then accessed unprotected,
and what was bound afterwards was never unbound. A second unbind also ran the
unbinders again, which closed file descriptors which were no longer ours.
---
 src/Reactor.hpp                |  5 +++++
 src/dsl/operation/TypeBind.hpp |  4 +++-
 src/threading/Reaction.cpp     |  3 ++-
 src/threading/Reaction.hpp     | 33 +++++++++++++++++++++++++++++++--
 4 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index d58cc15..82448cc 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -383,6 +383,11 @@ public:
             // Get our tuple from binding our reaction
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
+            // If it was unbound while it was being bound then some of its words have yet to be unbound
+            if (reaction->unbound) {
+                reaction->unbind();
+            }
+
             auto handle = threading::ReactionHandle(reaction);
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 8822914..d5f5bb2 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -64,7 +64,9 @@ namespace dsl {
             static void bind(const std::shared_ptr<threading::Reaction>& reaction) {
 
                 // Set this reaction as no stats emitting
-                reaction->emit_stats = reaction->emit_stats && EmitStats<DataType>::value;
+                if (!EmitStats<DataType>::value) {
+                    reaction->emit_stats = false;
+                }
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index bc3d6b8..58006a9 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -53,9 +53,10 @@ namespace threading {
     void Reaction::unbind() {
         // An emit which is under way may have found this reaction before it was removed
         enabled = false;
+        unbound = true;
 
         // Unbind
-        for (const auto& u : unbinders) {
+        for (const auto& u : unbinders.take()) {
             u(*this);
         }
     }
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fc8eec2..cf581bf 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -26,6 +26,8 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <mutex>
+#include <utility>
 #include <vector>
 
 #include "../id.hpp"
@@ -114,7 +116,7 @@ namespace threading {
         const NUClear::id_t id{next_id()};
 
         /// if this is false, we cannot emit ReactionStatistics from any reaction triggered by this one
-        bool emit_stats{true};
+        std::atomic<bool> emit_stats{true};
 
         /// the number of currently active tasks (existing reaction tasks)
         std::atomic<int> active_tasks{0};
@@ -122,8 +124,35 @@ namespace threading {
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
+        /// if this reaction object has been unbound
+        std::atomic<bool> unbound{false};
+
+        /**
+         * The functions which unbind the reaction.
+         *
+         * A reaction can be unbound (e.g. by running a Once) while the later words of it are still being bound.
+         */
+        class Unbinders {
+        public:
+            template <typename Function>
+            void emplace_back(Function&& function) {
+                const std::lock_guard<std::mutex> lock(mutex);
+                functions.emplace_back(std::forward<Function>(function));
+            }
+
+            /// Removes and returns all the functions so that each of them is only ever run once
+            std::vector<std::function<void(Reaction&)>> take() {
+                const std::lock_guard<std::mutex> lock(mutex);
+                return std::exchange(functions, {});
+            }
+
+        private:
+            std::mutex mutex;
+            std::vector<std::function<void(Reaction&)>> functions;
+        };
+
         /// list of functions to use to unbind the reaction and clean
-        std::vector<std::function<void(Reaction&)>> unbinders;
+        Unbinders unbinders;
 
     private:
         /**
-- 
2.43.0


From 19923823622292a78822d746784dcf6e6657ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 18/42] fix: inline tasks were queued although their groups had
 room

A task of a single group gave way to any multi-group task of that group, also
when there were tokens for both, and was then queued instead of being run
inline. After the shutdown a multi-group inline task was dropped if its pool
had never been used.
---
 src/threading/scheduler/Scheduler.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 5d8dc85..2cad477 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -203,6 +203,10 @@ namespace threading {
             auto lock = std::make_unique<CombinedLock>();
             for (const auto& desc : descs) {
                 lock->add(get_group(desc)->lock(task_id, priority, [pool] {
+                    // Without a pool this is only an attempt to run inline, and nothing waits for the lock
+                    if (pool == nullptr) {
+                        return;
+                    }
                     const auto current_pool = Pool::current();
                     const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
                     pool->notify(!current_pool_idle);
@@ -250,7 +254,7 @@ namespace threading {
             catch (const std::invalid_argument&) {
                 // We are shutting down and this pool was never created, so nothing will ever run its tasks.
                 // Drop the task like any other pool that has stopped accepting work, unless it can run right here.
-                if (!task->run_inline || task->group_descriptors.size() > 1) {
+                if (!task->run_inline) {
                     return;
                 }
             }
@@ -267,6 +271,14 @@ namespace threading {
                         task->run();
                         return;
                     }
+
+                    // The fast path gives way to any multi-group task that uses this group, even when there are enough
+                    // tokens for everyone. If so this can still run inline.
+                    auto group_lock = group->lock(task->id, task->priority, [] {});
+                    if (group_lock->lock()) {
+                        task->run();
+                        return;
+                    }
                 }
 
                 // Nowhere to queue the task (see above)
@@ -284,7 +296,7 @@ namespace threading {
             if (task->run_inline && (group_lock == nullptr || group_lock->lock())) {
                 task->run();
             }
-            else {
+            else if (pool != nullptr) {
                 pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
             }
         }
-- 
2.43.0


From 59d00d7d238740d4c3f37a9bc6fb7ce6fc0f0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 19/42] fix: Last kept missing data in its history

A reaction using Last on data which had never been emitted ran anyway and got
a null pointer in its list.
---
 src/dsl/word/Last.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Last.hpp b/src/dsl/word/Last.hpp
index 49fdaab..72ef214 100644
--- a/src/dsl/word/Last.hpp
+++ b/src/dsl/word/Last.hpp
@@ -52,13 +52,22 @@ namespace dsl {
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(T&& data) : list({std::move(data)}) {}
+            explicit LastItemStorage(T&& data) {
+                // Data which is missing is not part of the history
+                if (data) {
+                    list.push_back(std::move(data));
+                }
+            }
             /**
              * Constructs a LastItemStorage object with the given data.
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(const T& data) : list({data}) {}
+            explicit LastItemStorage(const T& data) {
+                if (data) {
+                    list.push_back(data);
+                }
+            }
 
             /**
              * Converts the stored list to a list of the given type.
-- 
2.43.0


From 89e004e43350a25e1f3ddbb44f6c2836825a176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 20/42] fix: every shutdown request ran the shutdown reactions
 again

PowerPlant::shutdown emitted the Shutdown message each time it was called, so
every reaction bound to Shutdown ran once per call. Only the first request
announces the shutdown now, a later one can still make it a forced one.
---
 src/PowerPlant.cpp | 14 +++++++++++---
 src/PowerPlant.hpp |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PowerPlant.cpp b/src/PowerPlant.cpp
index 790eb89..def8d53 100644
--- a/src/PowerPlant.cpp
+++ b/src/PowerPlant.cpp
@@ -22,6 +22,7 @@
 
 #include "PowerPlant.hpp"
 
+#include <atomic>
 #include <memory>
 #include <utility>
 
@@ -104,11 +105,18 @@ void PowerPlant::submit(std::unique_ptr<threading::ReactionTask>&& task) noexcep
 
 void PowerPlant::shutdown(bool force) {
 
+    // Only the first request announces the shutdown, however many times and from however many threads it is requested
+    const bool first = !shutdown_requested.exchange(true, std::memory_order_acq_rel);
+
     // Emit our shutdown event
-    emit(std::make_unique<dsl::word::Shutdown>());
+    if (first) {
+        emit(std::make_unique<dsl::word::Shutdown>());
+    }
 
-    // Shutdown the scheduler
-    scheduler.stop(force);
+    // Shutdown the scheduler, a later request can only make the shutdown a forced one
+    if (first || force) {
+        scheduler.stop(force);
+    }
 }
 
 }  // namespace NUClear
diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index afcf9d9..4511b6d 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_POWER_PLANT_HPP
 #define NUCLEAR_POWER_PLANT_HPP
 
+#include <atomic>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -313,6 +314,9 @@ public:
 
     /// Our TaskScheduler that handles distributing task to the pool threads
     threading::scheduler::Scheduler scheduler;
+
+    /// True once the shutdown of the system has been requested
+    std::atomic<bool> shutdown_requested{false};
     /// Our vector of Reactors, will get destructed when this vector is
     std::vector<std::unique_ptr<NUClear::Reactor>> reactors;
     /// Our logger that handles logging messages
-- 
2.43.0


From 42e9f733aca4a702a77d1e2d1af832f0556d5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 21/42] fix: global idle started early or again without any
 work

Work submitted while reactors were installed did not end the initial idle
state of its pool, so as soon as the other pools were idle the global idle
reactions ran while that work was still queued. And a submit whose task had
already been taken and finished ended the next idle period instead, so the
idle reactions ran again although nothing had happened.
---
 src/threading/scheduler/Pool.cpp      | 4 +++-
 src/threading/scheduler/Scheduler.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 315751d..75788b2 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -187,7 +187,9 @@ namespace threading {
                 drain_queues(abandoned);
                 return;
             }
-            if (clear_idle) {
+            // If the task has already been taken then the worker that took it ended the idle period, and by now a new one
+            // may have begun which must not be ended without any work
+            if (clear_idle && pending_tasks.load(std::memory_order_acquire) > 0) {
                 pool_idle = nullptr;
             }
             live = true;
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 2cad477..56f84c2 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -259,8 +259,10 @@ namespace threading {
                 }
             }
 
-            const auto current_pool = Pool::current();
-            const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
+            // What an idle pool submits does not end the idle period, but before the start no pool is idle for lack of work
+            const auto current_pool      = Pool::current();
+            const bool current_pool_idle = started.load(std::memory_order_acquire) && current_pool != nullptr
+                                           && current_pool->is_idle();
 
             // Fast path for a single group: lock-free token acquisition and waiter buckets
             if (task->group_descriptors.size() == 1) {
-- 
2.43.0


From bebad741a42385c12a2d036563bc97a14678fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 22/42] fix: deserialising an over-aligned type read it from a
 misaligned address

The bytes of a received message are aligned for the allocator only, so they
are copied to storage aligned for the type rather than accessed in place.
---
 src/util/serialise/Serialise.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/serialise/Serialise.hpp b/src/util/serialise/Serialise.hpp
index 76bdf3a..3a7e31d 100644
--- a/src/util/serialise/Serialise.hpp
+++ b/src/util/serialise/Serialise.hpp
@@ -82,7 +82,10 @@ namespace util {
                 if (in.size() != sizeof(T)) {
                     throw std::length_error("Serialised data is not the correct size");
                 }
-                return *reinterpret_cast<const T*>(in.data());
+                // The bytes are not necessarily aligned for T so they have to be copied to where they are
+                std::aligned_storage_t<sizeof(T), alignof(T)> out;
+                std::memcpy(&out, in.data(), sizeof(T));
+                return *reinterpret_cast<const T*>(&out);
             }
 
             static uint64_t hash() {
-- 
2.43.0


From fa43046d77fe53bd62caa9a3af108f91a9707dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 23/42] fix: log with a level that is a variable logged the
 level as text at DEBUG

log(level, args...) called with a LogLevel variable or a LogLevel::Value was a better match for the overload that takes
the level as a template argument, so the level became part of the text and the message was logged at DEBUG.
---
 src/LogLevel.hpp   | 7 +++++++
 src/PowerPlant.hpp | 6 +++---
 src/Reactor.hpp    | 7 ++++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/LogLevel.hpp b/src/LogLevel.hpp
index 3c9d6f0..0c7cb27 100644
--- a/src/LogLevel.hpp
+++ b/src/LogLevel.hpp
@@ -26,6 +26,7 @@
 #include <cstdint>
 #include <iosfwd>
 #include <string>
+#include <type_traits>
 
 // Why do we need to include platform.hpp here?
 // Because windows defines a bunch of things for legacy reasons, one of which is a #define for ERROR as blank
@@ -105,6 +106,12 @@ public:
         FATAL
     };
 
+    /// Usable as a template parameter only if T is a LogLevel or a LogLevel::Value
+    template <typename T>
+    using EnableIfLevel = std::enable_if_t<
+        std::is_same<std::decay_t<T>, LogLevel>::value || std::is_same<std::decay_t<T>, Value>::value,
+        int>;
+
     /**
      * Construct a LogLevel from a Value
      *
diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index 4511b6d..8a64a17 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -341,10 +341,10 @@ void log(Arguments&&... args) {
         PowerPlant::powerplant->log<level>(std::forward<Arguments>(args)...);
     }
 }
-template <typename... Arguments>
-void log(const LogLevel& level, Arguments&&... args) {
+template <typename Level, typename... Arguments, LogLevel::EnableIfLevel<Level> = 0>
+void log(Level&& level, Arguments&&... args) {
     if (PowerPlant::powerplant != nullptr) {
-        PowerPlant::powerplant->log(level, std::forward<Arguments>(args)...);
+        PowerPlant::powerplant->log(LogLevel(level), std::forward<Arguments>(args)...);
     }
 }
 
diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index 82448cc..254c195 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -488,16 +488,17 @@ public:
      *
      * Logs a message through the system so the various log handlers can access it.
      *
+     * @tparam Level     LogLevel or LogLevel::Value, deduced so that this is preferred over logging the level as text
      * @tparam Arguments The types of the arguments we are logging
      *
      * @param level The level to log at
      * @param args The arguments we are logging
      */
-    template <typename... Arguments>
-    void log(const LogLevel& level, Arguments&&... args) const {
+    template <typename Level, typename... Arguments, LogLevel::EnableIfLevel<Level> = 0>
+    void log(Level&& level, Arguments&&... args) const {
         // Short circuit here before going to the more expensive log function
         if (level >= min_log_level || level >= log_level) {
-            powerplant.log(this, level, std::forward<Arguments>(args)...);
+            powerplant.log(this, LogLevel(level), std::forward<Arguments>(args)...);
         }
     }
 };
-- 
2.43.0


From ed9234dcc1514e2783ad39dc45a6f230add6a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:44 +0000
Subject: [PATCH 24/42] fix: chrono tasks ran while the mutex of the controller
 was held

A reaction that a timer runs inline (Inline::ALWAYS) could not emit a delayed
message, bind a timer or unbind itself: it locked the mutex its own thread
held. Waiting precisely while holding the mutex also kept all others that add
timers waiting, and a shutdown between the check of running and the wait was
not noticed, so the system never ended.
---
 src/extension/ChronoController.cpp | 60 +++++++++++++++++++++---------
 src/extension/ChronoController.hpp |  7 ++++
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b42859b..dd6dce7 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -78,9 +78,15 @@ namespace extension {
         on<Trigger<dsl::operation::Unbind<ChronoTask>>>().then(
             "Unbind Chrono Task",
             [this](const dsl::operation::Unbind<ChronoTask>& unbind) {
-                // Lock the mutex while we're doing stuff
+                // Lock the mutexes while we're doing stuff
+                const std::lock_guard<std::recursive_mutex> run_lock(run_mutex);
                 const std::lock_guard<std::mutex> lock(mutex);
 
+                // If the task is unbinding itself from within its run it must not be renewed
+                if (current != nullptr && current->id == unbind.id) {
+                    current_unbound = true;
+                }
+
                 // Find the task
                 auto it = std::find_if(tasks.begin(), tasks.end(), [&](const ChronoTask& task) {
                     return task.id == unbind.id;
@@ -104,6 +110,7 @@ namespace extension {
         });
 
         on<Trigger<message::TimeTravel>>().then("Time Travel", [this](const message::TimeTravel& travel) {
+            const std::lock_guard<std::recursive_mutex> run_lock(run_mutex);
             const std::lock_guard<std::mutex> lock(mutex);
 
             // Adjust clock to target time and leave chrono tasks where they are
@@ -115,7 +122,9 @@ namespace extension {
                     for (auto& task : tasks) {
                         task.time += adjustment;
                     }
-
+                    if (current != nullptr) {
+                        current->time += adjustment;
+                    }
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
                     const clock::time_point nearest =
@@ -133,11 +142,19 @@ namespace extension {
             // Run until we are told to stop
             while (running.load(std::memory_order_acquire)) {
 
+                // Unbinding and time travel have to wait while a task is being run
+                std::unique_lock<std::recursive_mutex> run_lock(run_mutex);
                 // Acquire the mutex lock so we can wait on it
                 std::unique_lock<std::mutex> lock(mutex);
 
+                // A shutdown before we had the mutex will not notify us anymore
+                if (!running.load(std::memory_order_acquire)) {
+                    break;
+                }
+
                 // If we have no chrono tasks wait until we are notified
                 if (tasks.empty()) {
+                    run_lock.unlock();
                     wait.wait(lock, [this] { return !running.load(std::memory_order_acquire) || !tasks.empty(); });
                 }
                 else {
@@ -145,22 +162,34 @@ namespace extension {
                     auto target = tasks.front().time;
 
                     if (target <= start) {
-                        // Run our task and if it returns false remove it
-                        const bool renew = tasks.front()();
-
-                        // Move this to the back of the list
+                        // Take our task from the list
                         std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
+                        ChronoTask task = std::move(tasks.back());
+                        tasks.pop_back();
+
+                        // Run it without the mutex, as what it runs inline may add and remove tasks
+                        current         = &task;
+                        current_unbound = false;
+                        lock.unlock();
+                        bool renew = false;
+                        try {
+                            renew = task();
+                        }
+                        catch (...) {
+                            current = nullptr;
+                            throw;
+                        }
+                        lock.lock();
+                        current = nullptr;
 
-                        if (renew) {
-                            // Put the item back in the list
+                        // If it should run again put it back in the list
+                        if (renew && !current_unbound) {
+                            tasks.push_back(std::move(task));
                             std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
                         }
-                        else {
-                            // Remove the item from the list
-                            tasks.pop_back();
-                        }
                     }
                     else {
+                        run_lock.unlock();
                         const NUClear::clock::duration time_until_task =
                             std::chrono::duration_cast<NUClear::clock::duration>((target - start) / clock::rtf());
 
@@ -182,6 +211,7 @@ namespace extension {
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
                             // Wait on nanosleep
                             const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            lock.unlock();
                             util::precise_sleep(sleep_time);
 
                             // Update the accuracy of our precise sleep
@@ -191,11 +221,7 @@ namespace extension {
                                 ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
                             }
                         }
-                        else {
-                            while (NUClear::clock::now() < tasks.front().time) {
-                                // Spinlock until we get to the time
-                            }
-                        }
+                        // Otherwise we are very close, so go around again until we get to the time
                     }
                 }
             }
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index e3954f6..481361a 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -41,6 +41,13 @@ namespace extension {
         std::vector<dsl::operation::ChronoTask> tasks;
         /// The mutex we use to lock the task list
         std::mutex mutex;
+        /// Held while a task is being run so that unbinding and time travel have to wait for it, unless it does so itself.
+        /// If both mutexes are held this one is locked first
+        std::recursive_mutex run_mutex;
+        /// The task which is currently being run and is not in the list
+        ChronoTask* current{nullptr};
+        /// If the task which is currently being run has been unbound
+        bool current_unbound{false};
         /// The condition variable we use to wait on
         std::condition_variable wait;
         /// If we are running or not
-- 
2.43.0


From 3d9e64ebfde747fe83889a0f945ac2cb9f1db826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:36 +0000
Subject: [PATCH 25/42] fix: unbinding a watchdog broke others of the same
 group and key

The last service time was removed although another watchdog still used it, so
its timer threw in the timer thread. Count the watchdogs that use it.
---
 src/dsl/word/Watchdog.hpp | 51 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index f2b2ac7..ec795ae 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -37,6 +37,16 @@ namespace NUClear {
 namespace dsl {
     namespace word {
 
+        /**
+         * The service time of a watchdog and how many reactions are watching it.
+         */
+        struct WatchdogState {
+            /// When the watchdog was last serviced
+            NUClear::clock::time_point service_time{NUClear::clock::now()};
+            /// The number of reactions which are bound to this watchdog
+            int bound{0};
+        };
+
         /**
          * Handles the data store for the case when runtime arguments specified.
          *
@@ -51,7 +61,7 @@ namespace dsl {
         template <typename WatchdogGroup, typename RuntimeType = void>
         struct WatchdogDataStore {
             using MapType       = std::remove_cv_t<RuntimeType>;
-            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, NUClear::clock::time_point>>;
+            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, WatchdogState>>;
 
             /**
              * Mutex protecting structural and value updates to the underlying map for this
@@ -73,11 +83,9 @@ namespace dsl {
             static void init(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<std::map<MapType, NUClear::clock::time_point>>());
-                }
-                if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, NUClear::clock::now()});
+                    WatchdogStore::set(std::make_shared<std::map<MapType, WatchdogState>>());
                 }
+                ++(*WatchdogStore::get())[data].bound;
             }
 
             /**
@@ -95,7 +103,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data);
+                return WatchdogStore::get()->at(data).service_time;
             }
 
             /**
@@ -111,17 +119,19 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data) = when;
+                WatchdogStore::get()->at(data).service_time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog
+             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog once no reaction is bound to
+             * it anymore
              *
              * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
              */
             static void unbind(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
+                if (WatchdogStore::get() != nullptr && WatchdogStore::get()->count(data) != 0
+                    && --WatchdogStore::get()->at(data).bound == 0) {
                     WatchdogStore::get()->erase(data);
                 }
             }
@@ -138,7 +148,7 @@ namespace dsl {
          */
         template <typename WatchdogGroup>
         struct WatchdogDataStore<WatchdogGroup, void> {
-            using WatchdogStore = util::TypeMap<WatchdogGroup, void, NUClear::clock::time_point>;
+            using WatchdogStore = util::TypeMap<WatchdogGroup, void, WatchdogState>;
 
             /// See the documentation on the runtime-arg specialisation.
             static std::mutex& mutex() {
@@ -152,8 +162,9 @@ namespace dsl {
             static void init() {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<NUClear::clock::time_point>(NUClear::clock::now()));
+                    WatchdogStore::set(std::make_shared<WatchdogState>());
                 }
+                ++WatchdogStore::get()->bound;
             }
 
             /**
@@ -168,7 +179,7 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return *WatchdogStore::get();
+                return WatchdogStore::get()->service_time;
             }
 
             /**
@@ -180,16 +191,16 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                *WatchdogStore::get() = when;
+                WatchdogStore::get()->service_time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup watchdog.
+             * Cleans up any allocated storage for the WatchdogGroup watchdog once no reaction is bound to it anymore.
              */
             static void unbind() {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get().reset();
+                if (WatchdogStore::get() != nullptr && --WatchdogStore::get()->bound == 0) {
+                    WatchdogStore::set(nullptr);
                 }
             }
         };
@@ -270,9 +281,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([data](const threading::Reaction& r) {
-                    // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
+                    // Now that it is not checked anymore remove the active service time from the data store
+                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                 });
 
                 // Send our configuration out
@@ -297,9 +308,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup>::unbind();
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
+                    // Now that it is not checked anymore remove the active service time from the data store
+                    WatchdogDataStore<WatchdogGroup>::unbind();
                 });
 
                 // Send our configuration out
-- 
2.43.0


From 5659bdc0457f40445178aa4bfd877d6ae61cd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:34 +0000
Subject: [PATCH 26/42] fix: time travel made timers late by as much as the
 time was changed

The controller measures how late its waits are to wait less the next time. It
measured that on the clock which time travel changes, so after travelling
forward during a wait it slept without being able to be woken for up to that
time: timers were late and a shutdown had to wait.
---
 src/extension/ChronoController.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index dd6dce7..4cbfb45 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -45,16 +45,18 @@ namespace extension {
             // Estimate the accuracy of our cv wait
             std::mutex test;
             std::unique_lock<std::mutex> lock(test);
-            const auto cv_s = NUClear::clock::now();
+            const auto cv_s = std::chrono::steady_clock::now();
             wait.wait_for(lock, std::chrono::milliseconds(1));
-            const auto cv_e = NUClear::clock::now();
-            const auto cv_a = NUClear::clock::duration(cv_e - cv_s - std::chrono::milliseconds(1));
+            const auto cv_e = std::chrono::steady_clock::now();
+            const auto cv_a =
+                std::chrono::duration_cast<NUClear::clock::duration>(cv_e - cv_s - std::chrono::milliseconds(1));
 
             // Estimate the accuracy of our precise sleep
-            const auto ns_s = NUClear::clock::now();
+            const auto ns_s = std::chrono::steady_clock::now();
             util::precise_sleep(std::chrono::milliseconds(1));
-            const auto ns_e = NUClear::clock::now();
-            const auto ns_a = NUClear::clock::duration(ns_e - ns_s - std::chrono::milliseconds(1));
+            const auto ns_e = std::chrono::steady_clock::now();
+            const auto ns_a =
+                std::chrono::duration_cast<NUClear::clock::duration>(ns_e - ns_s - std::chrono::milliseconds(1));
 
             // Use the largest time we have seen
             cv_accuracy = cv_a > cv_accuracy ? cv_a : cv_accuracy;
@@ -199,11 +201,14 @@ namespace extension {
                         }
                         else if (time_until_task > cv_accuracy) {  // A long time in the future
                             // Wait on the cv
-                            wait.wait_for(lock, time_until_task - cv_accuracy);
+                            // How late it was is measured on the steady clock, as time travel changes our own clock
+                            const auto wait_time = time_until_task - cv_accuracy;
+                            const auto wait_end  = std::chrono::steady_clock::now() + wait_time;
+                            wait.wait_for(lock, wait_time);
 
                             // Update the accuracy of our cv wait
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
+                            const auto error = std::chrono::duration_cast<NUClear::clock::duration>(
+                                std::chrono::steady_clock::now() - wait_end);  // when ended - when wanted to end
                             if (error.count() > 0) {                          // only if we were late
                                 cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
                             }
@@ -211,12 +216,13 @@ namespace extension {
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
                             // Wait on nanosleep
                             const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            const auto sleep_end = std::chrono::steady_clock::now() + sleep_time;
                             lock.unlock();
                             util::precise_sleep(sleep_time);
 
                             // Update the accuracy of our precise sleep
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - ns_accuracy);  // when ended - when wanted to end
+                            const auto error = std::chrono::duration_cast<NUClear::clock::duration>(
+                                std::chrono::steady_clock::now() - sleep_end);  // when ended - when wanted to end
                             if (error.count() > 0) {                          // only if we were late
                                 ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
                             }
-- 
2.43.0


From d6f8f7b86d903f3523b21ca912daf77d0ae348e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:20 +0000
Subject: [PATCH 27/42] fix: reading the clock while it is being changed was a
 data race

A thread that was interrupted while it copied the clock data could see a mix
of two changes if the clock was changed three times meanwhile.
---
 src/clock.cpp | 68 ++++++++++++++++++++++++++++++++++-----------------
 src/clock.hpp | 29 ++++++++++++++++++----
 2 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/clock.cpp b/src/clock.cpp
index 3e5831b..6e6d6b5 100644
--- a/src/clock.cpp
+++ b/src/clock.cpp
@@ -24,6 +24,7 @@
 #include <array>
 #include <atomic>
 #include <chrono>
+#include <cstdint>
 #include <mutex>
 
 namespace NUClear {
@@ -35,51 +36,72 @@ namespace {
     }
 }  // namespace
 
+void clock::ClockData::set(const time_point& from, const time_point& to, const double& factor) {
+    base_from.store(from.time_since_epoch().count(), std::memory_order_release);
+    epoch.store(to.time_since_epoch().count(), std::memory_order_release);
+    rtf.store(factor, std::memory_order_release);
+}
+
+clock::time_point clock::ClockData::at(const time_point& base) const {
+    const time_point from(duration(base_from.load(std::memory_order_acquire)));
+    const time_point to(duration(epoch.load(std::memory_order_acquire)));
+    return to + dc((base - from) * rtf.load(std::memory_order_acquire));
+}
+
 clock::time_point clock::now() {
-    const ClockData current = data[active.load(std::memory_order_acquire)];  // Take a copy in case it changes
-    return current.epoch + dc((base_clock::now() - current.base_from) * current.rtf);
+    uint64_t c = active.load(std::memory_order_acquire);
+    while (true) {
+        const time_point time = data[c % data.size()].at(base_clock::now());
+
+        // What we read may only be overwritten once the other elements of the array have been used
+        const uint64_t n = active.load(std::memory_order_acquire);
+        if (n - c < data.size() - 1) {
+            return time;
+        }
+        c = n;
+    }
 }
 
 void clock::adjust_clock(const duration& adjustment, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
     // Load the current state
-    const int c         = active.load(std::memory_order_relaxed);
-    const auto& current = data[c];
-    const auto n        = int((c + 1) % data.size());
-    auto& next          = data[n];
+    const uint64_t c = active.load(std::memory_order_relaxed);
 
     // Perform the update
-    auto base      = base_clock::now();
-    next.epoch     = current.epoch + adjustment + dc((base - current.base_from) * current.rtf);
-    next.base_from = base;
-    next.rtf       = rtf;
-    active.store(n, std::memory_order_release);
+    const auto base = base_clock::now();
+    data[(c + 1) % data.size()].set(base, data[c % data.size()].at(base) + adjustment, rtf);
+    active.store(c + 1, std::memory_order_release);
 }
 
 void clock::set_clock(const time_point& time, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
-    // Load the next state
-    const int c = active.load(std::memory_order_acquire);
-    const int n = int((c + 1) % data.size());
-    auto& next  = data[n];
+    // Load the current state
+    const uint64_t c = active.load(std::memory_order_relaxed);
 
     // Perform the update
-    auto base      = base_clock::now();
-    next.epoch     = time;
-    next.base_from = base;
-    next.rtf       = rtf;
-    active         = n;
+    data[(c + 1) % data.size()].set(base_clock::now(), time, rtf);
+    active.store(c + 1, std::memory_order_release);
 }
 
 double clock::rtf() {
-    return data[active.load(std::memory_order_acquire)].rtf;
+    uint64_t c = active.load(std::memory_order_acquire);
+    while (true) {
+        const double rtf = data[c % data.size()].rtf.load(std::memory_order_acquire);
+
+        // Check that it was not overwritten, see now()
+        const uint64_t n = active.load(std::memory_order_acquire);
+        if (n - c < data.size() - 1) {
+            return rtf;
+        }
+        c = n;
+    }
 }
 
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
 std::mutex clock::mutex;
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::array<clock::ClockData, 3> clock::data = std::array<typename clock::ClockData, 3>{};
+std::array<clock::ClockData, 3> clock::data{};
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::atomic<int> clock::active{0};
+std::atomic<uint64_t> clock::active{0};
 
 }  // namespace NUClear
diff --git a/src/clock.hpp b/src/clock.hpp
index 75fbc99..0c32889 100644
--- a/src/clock.hpp
+++ b/src/clock.hpp
@@ -26,6 +26,7 @@
 #include <array>
 #include <atomic>
 #include <chrono>
+#include <cstdint>
 #include <mutex>
 
 namespace NUClear {
@@ -79,13 +80,31 @@ private:
      */
     struct ClockData {
         /// When the clock was last updated under the true time
-        time_point base_from = base_clock::now();
+        std::atomic<rep> base_from{base_clock::now().time_since_epoch().count()};
         /// Our calculated time when the clock was last updated in simulated time
-        time_point epoch = base_from;
+        std::atomic<rep> epoch{base_from.load()};
         /// The real time factor of the simulated clock
-        double rtf = 1.0;
+        std::atomic<double> rtf{1.0};
 
         ClockData() = default;
+
+        /**
+         * Set the data, each part is atomic as others may still be reading what was here before.
+         *
+         * @param from   The true time of the update.
+         * @param to     The simulated time at the update.
+         * @param factor The real time factor from the update on.
+         */
+        void set(const time_point& from, const time_point& to, const double& factor);
+
+        /**
+         * Get the simulated time.
+         *
+         * @param base The true time.
+         *
+         * @return The simulated time at the true time.
+         */
+        time_point at(const time_point& base) const;
     };
 
     /// The mutex to protect the clock data
@@ -94,8 +113,8 @@ private:
     /// The clock data for the system
     static std::array<ClockData, 3> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
-    /// The active clock data index
-    static std::atomic<int> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    /// The number of times the clock was changed, modulo the size of the data it is the index of the active data
+    static std::atomic<uint64_t> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 };
 
 }  // namespace NUClear
-- 
2.43.0


From c68ec07f5b7c1ba6b5bb527e85b6bc677018d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 28/42] fix: UDP and TCP listeners closed their socket before
 poll stopped using it

The unbinder that closes the socket was added before the one of the IO
system, so that the descriptor was closed (and possibly used again by someone
else) while the IO controller was still watching it.
---
 src/dsl/word/TCP.hpp | 7 +++----
 src/dsl/word/UDP.hpp | 4 +++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 12c2ae9..0247f83 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -137,17 +137,16 @@ namespace dsl {
                     port = ntohs(address.ipv4.sin_port);
                 }
 
-                // Generate a reaction for the IO system that closes on death
+                // Bind using the IO system
                 const fd_t cfd = fd.release();
+                IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
 
+                // Close on death, once the IO system does not use the file descriptor anymore
                 reaction->unbinders.emplace_back([cfd](const threading::Reaction&) {
                     ::shutdown(cfd, SHUT_RDWR);
                     ::close(cfd);
                 });
 
-                // Bind using the IO system
-                IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
-
                 // Return our handles
                 return std::make_tuple(port, cfd);
             }
diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 04206ec..03cc02a 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -307,9 +307,11 @@ namespace dsl {
 
                 // Generate a reaction for the IO system that closes on death
                 const fd_t cfd = fd.release();
-                reaction->unbinders.emplace_back([cfd](const threading::Reaction&) { ::close(cfd); });
                 IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
 
+                // Close once the IO system does not use the file descriptor anymore
+                reaction->unbinders.emplace_back([cfd](const threading::Reaction&) { ::close(cfd); });
+
                 // Return our handles and our bound port
                 return std::make_tuple(port, cfd);
             }
-- 
2.43.0


From 4e420e9e1f6ff4805a643fd9fbf92f37d4e6b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:23 +0000
Subject: [PATCH 29/42] fix: a datagram not for a UDP listener ran it again
 with the previous one

A packet is transient data, so when the socket was readable but there was
nothing for this reaction (e.g. a broadcast on the port of a unicast
listener) the packet that was received before was delivered once more.
---
 src/dsl/word/UDP.hpp | 63 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 03cc02a..ffc2bb8 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -28,6 +28,7 @@
 
 #include "../../threading/Reaction.hpp"
 #include "../../util/FileDescriptor.hpp"
+#include "../../util/MergeTransient.hpp"
 #include "../../util/network/get_interfaces.hpp"
 #include "../../util/network/if_number_from_address.hpp"
 #include "../../util/network/resolve.hpp"
@@ -87,6 +88,8 @@ namespace dsl {
             struct RecvResult {
                 /// If the packet is valid
                 bool valid{false};
+                /// If the reaction is triggered by its socket (and not by something else)
+                bool triggered{false};
                 /// The data that was received
                 std::vector<uint8_t> payload;
                 /// The local address that the packet was received on
@@ -101,6 +104,8 @@ namespace dsl {
 
                 /// If the packet is valid (it contains data)
                 bool valid{false};
+                /// If the socket triggered the reaction with nothing that is for it, so that it must not run
+                bool rejected{false};
 
                 /// The information about this packets destination
                 util::network::sock_t local{};
@@ -321,12 +326,19 @@ namespace dsl {
                 // Get our file descriptor from the magic cache
                 auto event = IO::get<DSL>(task);
 
-                // If our get is being run without an fd (something else triggered)
-                // Or if the event is not a read event then short circuit
-                if (!event || (event.events & IO::READ) != IO::READ) {
+                // If our get is being run without an fd (something else triggered) then short circuit
+                if (!event) {
                     return {};
                 }
 
+                RecvResult result{};
+                result.triggered = true;
+
+                // If the event is not a read event then short circuit
+                if ((event.events & IO::READ) != IO::READ) {
+                    return result;
+                }
+
                 // Allocate max size for a UDP packet
                 std::vector<uint8_t> buffer(65535, 0);
 
@@ -349,7 +361,7 @@ namespace dsl {
                 // Receive our message
                 const ssize_t received = recvmsg(event.fd, &mh, MSG_DONTWAIT);
                 if (received < 0) {
-                    return {};
+                    return result;
                 }
 
                 buffer.resize(received);
@@ -392,7 +404,24 @@ namespace dsl {
                     }
                 }
 
-                return RecvResult{true, buffer, local, remote};
+                result.valid   = true;
+                result.payload = std::move(buffer);
+                result.local   = local;
+                result.remote  = remote;
+                return result;
+            }
+
+            /**
+             * Makes the packet for when nothing was received that is for the reaction.
+             *
+             * @param result The result of reading from the socket
+             *
+             * @return an invalid packet
+             */
+            static Packet nothing(const RecvResult& result) {
+                Packet p{};
+                p.rejected = result.triggered;
+                return p;
             }
 
             template <typename DSL>
@@ -432,7 +461,7 @@ namespace dsl {
                     }
                 }
 
-                return {};
+                return nothing(result);
             }
 
             struct Broadcast : IO {
@@ -474,7 +503,7 @@ namespace dsl {
                         }
                     }
 
-                    return {};
+                    return nothing(result);
                 }
             };
 
@@ -509,7 +538,7 @@ namespace dsl {
                         return p;
                     }
 
-                    return {};
+                    return nothing(result);
                 }
             };
         };
@@ -523,6 +552,24 @@ namespace dsl {
 
     }  // namespace trait
 }  // namespace dsl
+
+namespace util {
+
+    /**
+     * A packet that was received earlier is only used again when it was not the socket that triggered the reaction.
+     */
+    template <>
+    struct MergeTransients<dsl::word::UDP::Packet> {
+        using Packet = dsl::word::UDP::Packet;
+        static bool merge(Packet& t, Packet& d) {
+            if (!d.rejected) {
+                d = t = d ? d : t;
+            }
+            return true;
+        }
+    };
+
+}  // namespace util
 }  // namespace NUClear
 
 #endif  // NUCLEAR_DSL_WORD_UDP_HPP
-- 
2.43.0


From 8587dd6586a498fae8ba952722cca7e9309ec461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:05 +0000
Subject: [PATCH 30/42] fix: UDP sockets on any port could share the port of
 another one

SO_REUSEADDR and SO_REUSEPORT were set before binding to port 0, which lets
the kernel choose a port that someone else is already using.
---
 src/dsl/word/UDP.hpp      | 32 ++++++++++++++++++++++----------
 src/dsl/word/emit/UDP.hpp | 13 ++++++++-----
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index ffc2bb8..dafccec 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -204,26 +204,38 @@ namespace dsl {
                     }
                 }
 
-                if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
-                    throw std::system_error(network_errno,
-                                            std::system_category(),
-                                            "Unable to reuse address on the socket");
-                }
+                // Allow others to share the port with us.
+                const auto allow_reuse = [&] {
+                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
+                        throw std::system_error(network_errno,
+                                                std::system_category(),
+                                                "Unable to reuse address on the socket");
+                    }
 
 // If SO_REUSEPORT is available set it too
 #ifdef SO_REUSEPORT
-                if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
-                    throw std::system_error(network_errno,
-                                            std::system_category(),
-                                            "Unable to reuse port on the socket");
-                }
+                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<char*>(&yes), sizeof(yes)) < 0) {
+                        throw std::system_error(network_errno,
+                                                std::system_category(),
+                                                "Unable to reuse port on the socket");
+                    }
 #endif
+                };
+
+                // If any port will do we must not be given one that someone else allows to be shared
+                if (options.port != 0) {
+                    allow_reuse();
+                }
 
                 // Bind to the address
                 if (::bind(fd, &bind_address.sock, bind_address.size()) != 0) {
                     throw std::system_error(network_errno, std::system_category(), "Unable to bind the UDP socket");
                 }
 
+                if (options.port == 0) {
+                    allow_reuse();
+                }
+
                 // If we have a multicast address, then we need to join the multicast groups
                 if (options.type == ConnectOptions::Type::MULTICAST) {
 
diff --git a/src/dsl/word/emit/UDP.hpp b/src/dsl/word/emit/UDP.hpp
index dbdfb8a..c30b618 100644
--- a/src/dsl/word/emit/UDP.hpp
+++ b/src/dsl/word/emit/UDP.hpp
@@ -104,17 +104,20 @@ namespace dsl {
                     }
 
                     int yes = 1;
-                    // Set reuse address and port so that emit can use the same port multiple times
-                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<const char*>(&yes), sizeof(yes))
-                        < 0) {
+                    // Set reuse address and port so that emit can use the same port multiple times.
+                    // If any port will do we must not be given one that is in use
+                    if (from_port != 0
+                        && ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, reinterpret_cast<const char*>(&yes), sizeof(yes))
+                               < 0) {
                         throw std::system_error(network_errno,
                                                 std::system_category(),
                                                 "Unable to set the reuse address option on the UDP socket");
                     }
 #ifdef SO_REUSEPORT
                     // If SO_REUSEPORT is available set it too
-                    if (::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<const char*>(&yes), sizeof(yes))
-                        < 0) {
+                    if (from_port != 0
+                        && ::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, reinterpret_cast<const char*>(&yes), sizeof(yes))
+                               < 0) {
                         throw std::system_error(network_errno,
                                                 std::system_category(),
                                                 "Unable to set the reuse port option on the UDP socket");
-- 
2.43.0


From a884d91b9a88ec90d7922733ccd9ba77151553e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:34 +0000
Subject: [PATCH 31/42] fix: IO events were lost, repeated, deadlocked or given
 to the wrong fd

* Inline IO reactions were submitted (so run and finished) while tasks_mutex
  was held, which deadlocked.
* Events of a reaction whose get rejected them kept waiting and their fd stayed
  masked, so the reaction never ran again.
* The sorted search included the notifier, which is always first, so the
  events of descriptors lower than it were not masked while being processed.
* An empty datagram, or data which somebody else has read since the poll, was
  taken for the end of the stream and the reaction was removed. Reactions
  which only write were told that the descriptor closed.
* Results of a poll which started before a descriptor was closed and used
  again were given to the new reaction.
* The notification pipe was never closed.
---
 src/extension/IOController.hpp         |  14 ++-
 src/extension/IOController_Posix.ipp   | 127 ++++++++++++++++++-------
 src/extension/IOController_Windows.ipp |  46 ++++++---
 3 files changed, 134 insertions(+), 53 deletions(-)

diff --git a/src/extension/IOController.hpp b/src/extension/IOController.hpp
index 69c0d68..441805d 100644
--- a/src/extension/IOController.hpp
+++ b/src/extension/IOController.hpp
@@ -107,13 +107,18 @@ namespace extension {
          * Fires the event for the task if it is ready.
          *
          * @param task The task to try to fire the event for
+         *
+         * @return the task to submit once no mutex is held, or nullptr if there is none
          */
-        void fire_event(Task& task);
+        std::unique_ptr<threading::ReactionTask> fire_event(Task& task);
 
         /**
          * Collects the events that have happened and sets them up to fire.
+         *
+         * @param event The watch that had events
+         * @param ready The list that the tasks which have to be submitted once no mutex is held are added to
          */
-        void process_event(watcher_t& event);
+        void process_event(watcher_t& event, std::vector<std::unique_ptr<threading::ReactionTask>>& ready);
 
         /**
          * Bumps the notification pipe to wake up the poll command.
@@ -126,6 +131,11 @@ namespace extension {
 
     public:
         explicit IOController(std::unique_ptr<NUClear::Environment> environment);
+        ~IOController() override;
+        IOController(const IOController&)            = delete;
+        IOController(IOController&&)                 = delete;
+        IOController& operator=(const IOController&) = delete;
+        IOController& operator=(IOController&&)      = delete;
 
     private:
         /// The event that is used to wake up the WaitForMultipleEvents call
diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index b53910d..395eaaf 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -88,6 +88,33 @@ namespace extension {
             IOController::notifier_t& notifier_;
         };
 
+        /**
+         * Works out if a file descriptor that is ready to be read has nothing left to read because it reached its end.
+         *
+         * @param fd The file descriptor to check
+         *
+         * @return `true` if the file descriptor is at its end
+         */
+        bool at_end(const fd_t& fd) {
+            int bytes_available = 0;
+            if (::ioctl(fd, FIONREAD, &bytes_available) != 0 || bytes_available != 0) {
+                return false;
+            }
+
+            int type      = 0;
+            socklen_t len = sizeof(type);
+            if (::getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &len) == 0) {
+                // A datagram may be empty, it does not mean that there won't be more
+                if (type == SOCK_DGRAM || type == SOCK_RAW) {
+                    return false;
+                }
+                // Someone may have read the data since it was polled
+                char c = 0;
+                return ::recv(fd, &c, sizeof(c), MSG_PEEK | MSG_DONTWAIT) == 0;
+            }
+            return true;
+        }
+
     }  // namespace
 
     void IOController::rebuild_list() {
@@ -117,7 +144,8 @@ namespace extension {
         dirty.store(false, std::memory_order_release);
     }
 
-    void IOController::fire_event(Task& task) {
+    std::unique_ptr<threading::ReactionTask> IOController::fire_event(Task& task) {
+        std::unique_ptr<threading::ReactionTask> r;
         if (task.processing_events == 0 && task.waiting_events != 0) {
 
             // Make our event to pass through and store it in the local cache
@@ -125,10 +153,10 @@ namespace extension {
             e.fd     = task.fd;
             e.events = task.waiting_events;
 
-            // Submit the task (which should run the get)
-            IO::ThreadEventStore::value                = &e;
-            std::unique_ptr<threading::ReactionTask> r = task.reaction->get_task();
-            IO::ThreadEventStore::value                = nullptr;
+            // Make the task (which should run the get)
+            IO::ThreadEventStore::value = &e;
+            r                           = task.reaction->get_task();
+            IO::ThreadEventStore::value = nullptr;
 
             if (r != nullptr) {
                 // Clear the waiting events, we are now processing them
@@ -136,25 +164,24 @@ namespace extension {
                 task.waiting_events    = 0;
 
                 // Mask out the currently processing events so poll doesn't notify for them
-                auto it =
-                    std::lower_bound(watches.begin(), watches.end(), task.fd, [&](const pollfd& w, const fd_t& fd) {
-                        return w.fd < fd;
-                    });
+                // The first watch is our notifier, only those after it are sorted by their fd
+                auto it = std::lower_bound(std::next(watches.begin()),
+                                           watches.end(),
+                                           task.fd,
+                                           [&](const pollfd& w, const fd_t& fd) { return w.fd < fd; });
                 if (it != watches.end() && it->fd == task.fd) {
                     it->events = event_t(it->events & ~task.processing_events);
                 }
-
-                powerplant.submit(std::move(r));
             }
             else {
-                task.waiting_events    = event_t(task.waiting_events | task.processing_events);
-                task.processing_events = 0;
+                // The reaction did not want these events, poll will report them again if they still apply
+                task.waiting_events = 0;
             }
         }
+        return r;
     }
 
-    void IOController::process_event(pollfd& event) {
-
+    void IOController::process_event(pollfd& event, std::vector<std::unique_ptr<threading::ReactionTask>>& ready) {
 
         // It's our notification handle
         if (event.fd == notifier.recv) {
@@ -172,14 +199,7 @@ namespace extension {
             // On linux we don't get a close event, we just keep getting read events with 0 bytes
             // To make the close event happen if we get a read event with 0 bytes we will check if there are
             // any currently processing reads and if not, then close
-            bool maybe_eof = false;
-            if ((event.revents & IO::READ) != 0) {
-                int bytes_available = 0;
-                const bool valid    = ::ioctl(event.fd, FIONREAD, &bytes_available) == 0;
-                if (valid && bytes_available == 0) {
-                    maybe_eof = true;
-                }
-            }
+            const bool maybe_eof = (event.revents & IO::READ) != 0 && at_end(event.fd);
 
             // Find our relevant tasks
             auto range = std::equal_range(tasks.begin(),
@@ -198,11 +218,15 @@ namespace extension {
                     // Load in the relevant events that happened into the waiting events
                     it->waiting_events = event_t(it->waiting_events | (it->listening_events & event.revents));
 
-                    if (maybe_eof && (it->processing_events & IO::READ) == 0) {
+                    if (maybe_eof && (it->listening_events & (IO::READ | IO::CLOSE)) != 0
+                        && (it->processing_events & IO::READ) == 0) {
                         it->waiting_events |= IO::CLOSE;
                     }
 
-                    fire_event(*it);
+                    auto task = fire_event(*it);
+                    if (task != nullptr) {
+                        ready.push_back(std::move(task));
+                    }
                 }
             }
         }
@@ -251,8 +275,11 @@ namespace extension {
             });
 
         on<Trigger<dsl::word::IOFinished>>().then("IO Finished", [this](const dsl::word::IOFinished& event) {
+            // The task to submit once nothing is locked, as an inline task runs (and finishes) while it is submitted
+            std::unique_ptr<threading::ReactionTask> ready;
+
             // Get the lock so we don't concurrently modify the list
-            const std::lock_guard<std::mutex> lock(tasks_mutex);
+            std::unique_lock<std::mutex> lock(tasks_mutex);
 
             // Find the reaction that finished processing
             auto task = std::find_if(tasks.begin(), tasks.end(), [&event](const Task& t) {
@@ -262,8 +289,10 @@ namespace extension {
             if (task != tasks.end()) {
                 // If the events we were processing included close remove it from the list
                 if ((task->processing_events & IO::CLOSE) != 0) {
-                    dirty.store(true, std::memory_order_release);
                     tasks.erase(task);
+                    dirty.store(true, std::memory_order_release);
+                    // The fd may be closed and used again for something else from now on
+                    bump();
                 }
                 else {
                     // We are about to mutate `watches[].events`, which the poll thread reads
@@ -278,21 +307,26 @@ namespace extension {
                     const auto notifier_lock = wake.lock();
 
                     // Unmask the events that were just processed
-                    auto it = std::lower_bound(watches.begin(),
+                    auto it = std::lower_bound(std::next(watches.begin()),
                                                watches.end(),
                                                task->fd,
                                                [&](const pollfd& w, const fd_t& fd) { return w.fd < fd; });
                     if (it != watches.end() && it->fd == task->fd) {
-                        it->events = event_t(it->events | task->processing_events);
+                        it->events = event_t(it->events | task->processing_events | task->waiting_events);
                     }
 
                     // No longer processing events
                     task->processing_events = 0;
 
                     // Try to fire again which will check if there are any waiting events
-                    fire_event(*task);
+                    ready = fire_event(*task);
                 }
             }
+
+            lock.unlock();
+            if (ready != nullptr) {
+                powerplant.submit(std::move(ready));
+            }
         });
 
         on<Trigger<dsl::operation::Unbind<IO>>>().then(
@@ -346,19 +380,38 @@ namespace extension {
                     return;
                 }
 
-                // Get the lock so we don't concurrently modify the list
-                const std::lock_guard<std::mutex> lock(tasks_mutex);
-                for (auto& fd : watches) {
+                // The tasks to submit once nothing is locked, as an inline task runs (and finishes) while it is submitted
+                std::vector<std::unique_ptr<threading::ReactionTask>> ready;
 
-                    // Collect the events that happened into the tasks list
-                    // Something happened
-                    if (fd.revents != 0) {
-                        process_event(fd);
+                /* mutex scope */ {
+                    // Get the lock so we don't concurrently modify the list
+                    const std::lock_guard<std::mutex> lock(tasks_mutex);
+
+                    // If the tasks changed since poll looked, a file descriptor might not be what it was then.
+                    // What still applies will be reported again by the next poll
+                    if (!dirty.load(std::memory_order_acquire)) {
+                        for (auto& fd : watches) {
+
+                            // Collect the events that happened into the tasks list
+                            // Something happened
+                            if (fd.revents != 0) {
+                                process_event(fd, ready);
+                            }
+                        }
                     }
                 }
+
+                for (auto& task : ready) {
+                    powerplant.submit(std::move(task));
+                }
             }
         });
     }
 
+    IOController::~IOController() {
+        ::close(notifier.recv);
+        ::close(notifier.send);
+    }
+
 }  // namespace extension
 }  // namespace NUClear
diff --git a/src/extension/IOController_Windows.ipp b/src/extension/IOController_Windows.ipp
index 5217891..26c9227 100644
--- a/src/extension/IOController_Windows.ipp
+++ b/src/extension/IOController_Windows.ipp
@@ -66,7 +66,8 @@ namespace extension {
         dirty.store(false, std::memory_order_release);
     }
 
-    void IOController::fire_event(Task& task) {
+    std::unique_ptr<threading::ReactionTask> IOController::fire_event(Task& task) {
+        std::unique_ptr<threading::ReactionTask> r;
         if (task.processing_events == 0 && task.waiting_events != 0) {
 
             // Make our event to pass through and store it in the local cache
@@ -78,23 +79,21 @@ namespace extension {
             task.processing_events = task.waiting_events;
             task.waiting_events    = 0;
 
-            // Submit the task (which should run the get)
-            IO::ThreadEventStore::value                = &e;
-            std::unique_ptr<threading::ReactionTask> r = task.reaction->get_task();
-            IO::ThreadEventStore::value                = nullptr;
+            // Make the task (which should run the get)
+            IO::ThreadEventStore::value = &e;
+            r                           = task.reaction->get_task();
+            IO::ThreadEventStore::value = nullptr;
 
-            if (r != nullptr) {
-                powerplant.submit(std::move(r));
-            }
-            else {
+            if (r == nullptr) {
                 // Waiting events are still waiting
                 task.waiting_events |= task.processing_events;
                 task.processing_events = 0;
             }
         }
+        return r;
     }
 
-    void IOController::process_event(WSAEVENT& event) {
+    void IOController::process_event(WSAEVENT& event, std::vector<std::unique_ptr<threading::ReactionTask>>& ready) {
 
         // Get the lock so we don't concurrently modify the list
         const std::lock_guard<std::mutex> lock(tasks_mutex);
@@ -120,7 +119,10 @@ namespace extension {
                 }
 
                 r->second.waiting_events |= wsae.lNetworkEvents;
-                fire_event(r->second);
+                auto task = fire_event(r->second);
+                if (task != nullptr) {
+                    ready.push_back(std::move(task));
+                }
             }
             // If we can't find the event then our list is dirty
             else {
@@ -178,8 +180,11 @@ namespace extension {
             });
 
         on<Trigger<dsl::word::IOFinished>>().then("IO Finished", [this](const dsl::word::IOFinished& event) {
+            // The task to submit once nothing is locked, as an inline task runs (and finishes) while it is submitted
+            std::unique_ptr<threading::ReactionTask> ready;
+
             // Get the lock so we don't concurrently modify the list
-            const std::lock_guard<std::mutex> lock(tasks_mutex);
+            std::unique_lock<std::mutex> lock(tasks_mutex);
 
             // Find the reaction that finished processing
             auto it = std::find_if(tasks.begin(), tasks.end(), [&event](const std::pair<WSAEVENT, Task>& t) {
@@ -199,9 +204,14 @@ namespace extension {
                     task.processing_events = 0;
 
                     // Try to fire again which will check if there are any waiting events
-                    fire_event(task);
+                    ready = fire_event(task);
                 }
             }
+
+            lock.unlock();
+            if (ready != nullptr) {
+                powerplant.submit(std::move(ready));
+            }
         });
 
         on<Trigger<dsl::operation::Unbind<IO>>>().then(
@@ -253,11 +263,19 @@ namespace extension {
                     auto& event = watches[event_index - WSA_WAIT_EVENT_0];
 
                     // Collect the events that happened into the tasks list
-                    process_event(event);
+                    std::vector<std::unique_ptr<threading::ReactionTask>> ready;
+                    process_event(event, ready);
+                    for (auto& task : ready) {
+                        powerplant.submit(std::move(task));
+                    }
                 }
             }
         });
     }
 
+    IOController::~IOController() {
+        WSACloseEvent(notifier.notifier);
+    }
+
 }  // namespace extension
 }  // namespace NUClear
-- 
2.43.0


From 9569f3baed97d08b568e41be9b16552b2f089f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:06 +0000
Subject: [PATCH 32/42] fix: network packets were cut at 1500 bytes and reading
 them could block

The receive buffer was 1500 bytes long while the sender cuts messages at the
configured mtu, so with a larger mtu every large message was altered. An empty
datagram stayed in front of the socket forever as it has no bytes to read, and
a read that failed resized the payload to -1.
---
 src/extension/network/NUClearNetwork.cpp | 65 +++++++++++++-----------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 11839da..8050e84 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -51,22 +51,32 @@ namespace extension {
         namespace {  // Anonymous namespace for internal linkage
 
             /**
-             * Read a single packet from the given udp file descriptor.
+             * Read a single packet from the given udp file descriptor without waiting for one.
              *
-             * @param fd The file descriptor to read from
+             * @param fd      The file descriptor to read from
+             * @param buffer  Space that can hold any packet
+             * @param from    Set to who the packet was sent from
+             * @param payload Set to the data of the packet
              *
-             * @return The data and who it was sent from
+             * @return true if there was a packet to read
              */
-            std::pair<util::network::sock_t, std::vector<uint8_t>> read_socket(fd_t fd) {
+            bool read_socket(fd_t fd,
+                             std::vector<uint8_t>& buffer,
+                             util::network::sock_t& from,
+                             std::vector<uint8_t>& payload) {
+
+#ifdef _WIN32
+                // Windows can't do reads that don't wait, so make sure that there is something to read
+                unsigned long count = 0;  // NOLINT(google-runtime-int)
+                ioctl(fd, FIONREAD, &count);
+                if (count == 0) {
+                    return false;
+                }
+#endif
 
-                // Allocate a vector that can hold a datagram
-                std::vector<uint8_t> payload(1500);
                 iovec iov{};
-                iov.iov_base = reinterpret_cast<char*>(payload.data());
-                iov.iov_len  = static_cast<decltype(iov.iov_len)>(payload.size());
-
-                // Who we are receiving from
-                util::network::sock_t from{};
+                iov.iov_base = reinterpret_cast<char*>(buffer.data());
+                iov.iov_len  = static_cast<decltype(iov.iov_len)>(buffer.size());
 
                 // Setup our message header to receive
                 msghdr mh{};
@@ -76,10 +86,13 @@ namespace extension {
                 mh.msg_iovlen  = 1;
 
                 // Now read the data for real
-                const ssize_t received = recvmsg(fd, &mh, 0);
-                payload.resize(received);
+                const ssize_t received = recvmsg(fd, &mh, MSG_DONTWAIT);
+                if (received < 0) {
+                    return false;
+                }
 
-                return {from, std::move(payload)};
+                payload.assign(buffer.begin(), buffer.begin() + received);
+                return true;
             }
 
         }  // namespace
@@ -464,23 +477,15 @@ namespace extension {
                 retransmit();
             }
 
-            // Used for storing how many bytes are available on a socket
-            unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
-
-            // Read packets from the multicast socket while there is data available
-            ioctl(announce_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(announce_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(announce_fd, FIONREAD, &(count = 0));
+            // Read packets from the announce socket and then from the data socket while there are any
+            std::vector<uint8_t> buffer(65535);
+            sock_t from{};
+            std::vector<uint8_t> payload;
+            while (read_socket(announce_fd, buffer, from, payload)) {
+                process_packet(from, std::move(payload));
             }
-
-            // Check if we have a packet available on the data socket
-            ioctl(data_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(data_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(data_fd, FIONREAD, &(count = 0));
+            while (read_socket(data_fd, buffer, from, payload)) {
+                process_packet(from, std::move(payload));
             }
         }
 
-- 
2.43.0


From 252f4034e24bda9f5407b43fee2752c85ad7cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:47 +0000
Subject: [PATCH 33/42] fix: a network node stopped announcing itself after a
 failed or early attempt

The next announcement was only scheduled after one was sent. When sending it
failed, or the timer went off no later than the 500 ms after the last one,
nothing was scheduled and the node stayed silent from then on. When sending
failed what was due otherwise (timeouts, retransmissions and reading) was
skipped too.
---
 src/extension/network/NUClearNetwork.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 8050e84..f475f87 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -431,18 +431,17 @@ namespace extension {
             auto now = std::chrono::steady_clock::now();
 
             // Check if we should announce now
-            if (now - last_announce > std::chrono::milliseconds(500)) {
+            const bool announce_due = now - last_announce >= std::chrono::milliseconds(500);
+            if (announce_due) {
                 last_announce = now;
-                announce();
+            }
 
-                // Update our event timer
-                auto next_announce = now + std::chrono::milliseconds(500);
-                if (next_announce > next_event) {
-                    next_event = next_announce;
+            // Unless there is another event to come ask for attention when the next announcement is due
+            if (announce_due || next_event <= now) {
+                next_event = last_announce + std::chrono::milliseconds(500);
 
-                    // Let the system know when we need attention again
-                    next_event_callback(next_event);
-                }
+                // Let the system know when we need attention again
+                next_event_callback(next_event);
             }
 
             // We need to make this list outside mutex scope in case the callback needs the mutex
@@ -487,6 +486,11 @@ namespace extension {
             while (read_socket(data_fd, buffer, from, payload)) {
                 process_packet(from, std::move(payload));
             }
+
+            // This throws when it can't send, so everything else has to be done by then
+            if (announce_due) {
+                announce();
+            }
         }
 
         void NUClearNetwork::retransmit() {
-- 
2.43.0


From 17866a81289f2fc5fffe4e1982e20132d250852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:51 +0000
Subject: [PATCH 34/42] fix: reliable network messages were delivered more than
 once

Only retransmissions were compared to what was received before, so an original
that the network duplicated or that was overtaken by its retransmission was
delivered again. Only the last 255 messages were remembered, and remembering
the 256th wrote past the end of the array. As nothing was ever forgotten a new
message that was given the number of an old one could be taken for it.
---
 src/extension/network/NUClearNetwork.cpp | 31 ++++++++++++------------
 src/extension/network/NUClearNetwork.hpp | 29 +++++++++++++---------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index f475f87..9e5b3ad 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -24,7 +24,6 @@
 
 #include <algorithm>
 #include <array>
-#include <atomic>
 #include <chrono>
 #include <cstdint>
 #include <cstring>
@@ -681,18 +680,24 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
-                            // Check if this packet is a retransmission of data
-                            if (header.type == DATA_RETRANSMISSION) {
+                            // Check if this is a packet that we already have
+                            if (packet.reliable) {
 
                                 // See if we recently processed this packet
-                                // NOLINTNEXTLINE(readability-qualified-auto) MSVC disagrees
-                                auto it = std::find(remote->recent_packets.begin(),
-                                                    remote->recent_packets.end(),
-                                                    packet.packet_id);
+                                auto it = remote->recent_packets.find(packet.packet_id);
+
+                                // Packet ids are used again. Data that is not a retransmission is only repeated by the
+                                // network, which is soon or not at all, otherwise it is something new
+                                const auto now     = std::chrono::steady_clock::now();
+                                const auto timeout = std::chrono::seconds(header.type == DATA_RETRANSMISSION ? 30 : 2);
 
                                 // We recently processed this packet, this is just a failed ack
-                                // Send the ack again if it was reliable
-                                if (it != remote->recent_packets.end() && packet.reliable) {
+                                // Send the ack again
+                                if (it != remote->recent_packets.end() && now - it->second < timeout) {
+
+                                    if (header.type == DATA_RETRANSMISSION) {
+                                        it->second = now;
+                                    }
 
                                     // Allocate room for the whole ack packet
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -750,9 +755,7 @@ namespace extension {
                                              to.size());
 
                                     // Set this packet to have been recently received
-                                    remote->recent_packets[remote->recent_packets_index
-                                                               .fetch_add(1, std::memory_order_relaxed)] =
-                                        packet.packet_id;
+                                    remote->completed(packet.packet_id);
                                 }
 
                                 packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
@@ -866,9 +869,7 @@ namespace extension {
                                     // If the packet was reliable add that it was recently received
                                     if (packet.reliable) {
                                         // Set this packet to have been recently received
-                                        remote->recent_packets[remote->recent_packets_index
-                                                                   .fetch_add(1, std::memory_order_relaxed)] =
-                                            packet.packet_id;
+                                        remote->completed(packet.packet_id);
                                     }
 
                                     // We have completed this packet, discard the data
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e2277af..28de50b 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -24,11 +24,9 @@
 #define NUCLEAR_EXTENSION_NETWORK_NUCLEAR_NETWORK_HPP
 
 #include <array>
-#include <atomic>
 #include <chrono>
 #include <cstdint>
 #include <functional>
-#include <limits>
 #include <list>
 #include <map>
 #include <memory>
@@ -56,11 +54,7 @@ namespace extension {
                     std::string name,
                     const sock_t& target,
                     const std::chrono::steady_clock::time_point& last_update = std::chrono::steady_clock::now())
-                    : name(std::move(name)), target(target), last_update(last_update) {
-
-                    // Set our recent packets to an invalid value
-                    recent_packets.fill(-1);
-                }
+                    : name(std::move(name)), target(target), last_update(last_update) {}
 
                 /// The name of the remote target
                 std::string name;
@@ -68,10 +62,23 @@ namespace extension {
                 sock_t target{};
                 /// When we last received data from the remote target
                 std::chrono::steady_clock::time_point last_update;
-                /// A list of the last n packet groups to be received
-                std::array<int, std::numeric_limits<uint8_t>::max()> recent_packets{};
-                /// An index for the recent_packets (circular buffer)
-                std::atomic<uint8_t> recent_packets_index{0};
+                /// The reliable packet groups that were completed recently and when they were last heard of
+                std::map<uint16_t, std::chrono::steady_clock::time_point> recent_packets;
+                /// Remember that a reliable packet group was completed
+                void completed(const uint16_t& packet_id) {
+                    // Ids are used in order so those that are far away are from long ago and will be used again soon
+                    const auto first = recent_packets.lower_bound(uint16_t(packet_id + 0x6000));
+                    const auto last  = recent_packets.lower_bound(uint16_t(packet_id + 0xA000));
+                    if (uint16_t(packet_id + 0x6000) < uint16_t(packet_id + 0xA000)) {
+                        recent_packets.erase(first, last);
+                    }
+                    else {
+                        recent_packets.erase(recent_packets.begin(), last);
+                        recent_packets.erase(first, recent_packets.end());
+                    }
+                    recent_packets[packet_id] = std::chrono::steady_clock::now();
+                }
+
                 /// Mutex to protect the fragmented packet storage
                 std::mutex assemblers_mutex;
                 /// Storage for fragmented packets while we build them
-- 
2.43.0


From 4a7d897e10d12ef1ae0e4eca9850a8a2bab21779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:45 +0000
Subject: [PATCH 35/42] fix: fragmented reliable network messages could be lost
 or mixed up

The fragments of a message that was not complete for ten round trips were
discarded although they had been acknowledged, and the sender never took an
acknowledgement back, so the message was never completed. As this was only done
after the fragment that was just received was added, fragments of an old message
were put together with those of a new one that was given its number.
---
 src/extension/network/NUClearNetwork.cpp | 29 +++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 9e5b3ad..6f812fc 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -766,6 +766,22 @@ namespace extension {
                                 // Grab the payload and put it in our list of assemblers targets
                                 auto& assemblers = remote->assemblers;
 
+                                // Check for and delete any timed out packets so that they can't mix with this one
+                                // Reliable packets are given time as what they are missing will still be resent
+                                using duration         = std::chrono::steady_clock::duration;
+                                const auto now         = std::chrono::steady_clock::now();
+                                const duration timeout = std::max<duration>(remote->round_trip_time * 10,
+                                                                            std::chrono::seconds(1));
+                                const duration reliable_timeout = std::max<duration>(timeout, std::chrono::seconds(30));
+                                for (auto it = assemblers.begin(); it != assemblers.end();) {
+                                    const auto& last_chunk_time = it->second.first;
+                                    const auto& chunk           = it->second.second.begin()->second;
+                                    const bool reliable = reinterpret_cast<const DataPacket*>(chunk.data())->reliable;
+
+                                    it = now > last_chunk_time + (reliable ? reliable_timeout : timeout) ? assemblers.erase(it)
+                                                                                                        : std::next(it);
+                                }
+
                                 auto& assembler = assemblers[packet.packet_id];
 
                                 // First check that our cache isn't super corrupted by ensuring that our last packet
@@ -875,15 +891,6 @@ namespace extension {
                                     // We have completed this packet, discard the data
                                     assemblers.erase(assemblers.find(packet.packet_id));
                                 }
-
-                                // Check for and delete any timed out packets
-                                for (auto it = assemblers.begin(); it != assemblers.end();) {
-                                    const auto now              = std::chrono::steady_clock::now();
-                                    const auto timeout          = remote->round_trip_time * 10.0;
-                                    const auto& last_chunk_time = it->second.first;
-
-                                    it = now > last_chunk_time + timeout ? assemblers.erase(it) : std::next(it);
-                                }
                             }
                         }
                     } break;
@@ -936,8 +943,8 @@ namespace extension {
                                     bool all_acked = true;
                                     for (unsigned i = 0; i < s->acked.size(); ++i) {
 
-                                        // Update our bitset
-                                        s->acked[i] |= (&packet.packets)[i];
+                                        // Update our bitset to what they have, which can be less than they had
+                                        s->acked[i] = (&packet.packets)[i];
 
                                         // Work out what a "fully acked" packet would look like
                                         const uint8_t expected = i + 1 < s->acked.size() || packet.packet_count % 8 == 0
-- 
2.43.0


From b930bf38e8fb767f79465bb355387a1c99dd7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:42 +0000
Subject: [PATCH 36/42] fix: malformed network packets were used without being
 checked

Announcements, acks and data that are too short, data with no number or one past
the end, flags that are not a bool, and negative acknowledgements (whose bitset
was written, read and retransmitted from with the wrong index) made the node
read and write out of bounds, throw or loop. A leave that came from the announce
address made it forget who to announce to.
---
 src/extension/network/NUClearNetwork.cpp | 30 ++++++++++++++++++++----
 src/extension/network/wire_protocol.hpp  |  3 ++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 6f812fc..699fd1f 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -590,6 +590,23 @@ namespace extension {
                     remote = r == udp_target.end() ? nullptr : r->second;
                 }
 
+                // Nobody sends from the address that we announce to, it only stands for everyone
+                if (remote && remote->name.empty()) {
+                    return;
+                }
+
+                // Nothing can be read from packets that are too short to have what their type needs
+                // The data and ack bitset variables at the end of the packets are only where the rest starts
+                const size_t needed = header.type == ANNOUNCE ? sizeof(AnnouncePacket)
+                                      : header.type == DATA || header.type == DATA_RETRANSMISSION
+                                          ? sizeof(DataPacket) - 1
+                                      : header.type == ACK  ? sizeof(ACKPacket)
+                                      : header.type == NACK ? sizeof(NACKPacket)
+                                                            : sizeof(PacketHeader);
+                if (payload.size() < needed) {
+                    return;
+                }
+
                 switch (header.type) {
 
                     // A packet announcing that a user is on the network
@@ -670,7 +687,7 @@ namespace extension {
 
                         // If the packet is obviously corrupt, drop it and since we didn't ack it it'll be resent if
                         // it's important
-                        if (packet.packet_no > packet.packet_count) {
+                        if (packet.packet_no >= packet.packet_count) {
                             return;
                         }
 
@@ -804,7 +821,9 @@ namespace extension {
 
                                         // Set the bits for the packets we thought we received
                                         for (const auto& p : assembler.second) {
-                                            (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            if (p.first < packet.packet_count) {
+                                                (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            }
                                         }
 
                                         // Ensure the bit for this packet isn't NACKed
@@ -979,6 +998,9 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
+                            // lock the send queue mutex
+                            const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
+
                             // Check for our packet id in the send queue
                             if (send_queue.count(packet.packet_id) > 0) {
 
@@ -1018,11 +1040,11 @@ namespace extension {
                                     }
 
                                     // Now we have to retransmit the nacked packets
-                                    for (uint16_t i = 0; i < packet.packet_count * 8; ++i) {
+                                    for (uint16_t i = 0; i < packet.packet_count; ++i) {
 
                                         // Check if this packet needs to be sent
                                         const uint8_t bit = 1 << (i % 8);
-                                        if (((&packet.packets)[i] & bit) == bit) {
+                                        if (((&packet.packets)[i / 8] & bit) == bit) {
                                             send_packet(remote->target, queue.header, i, queue.payload, true);
                                         }
                                     }
diff --git a/src/extension/network/wire_protocol.hpp b/src/extension/network/wire_protocol.hpp
index 775f54e..de31d17 100644
--- a/src/extension/network/wire_protocol.hpp
+++ b/src/extension/network/wire_protocol.hpp
@@ -79,7 +79,8 @@ namespace extension {
                  // How many packets there are in the group
                  uint16_t packet_count{1};
                  // If this packet is reliable and should be acked
-                 bool reliable{false};
+                 // A number, as any byte can be received here and not every one of them is a valid bool
+                 uint8_t reliable{0};
                  // The 64 bit hash to identify the data type
                  uint64_t hash{0};
                  // The data (access using &data)
-- 
2.43.0


From 4e72cabd609ec728f2ad88e5f6f4467e4187a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:22 +0000
Subject: [PATCH 37/42] fix: reliable network messages of a multiple of 8
 fragments were kept forever

Their bitset has a last byte without any fragment in it which was expected to be
all ones, so they were never found to be acknowledged completely.
---
 src/extension/network/NUClearNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 699fd1f..b0573c9 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -966,9 +966,9 @@ namespace extension {
                                         s->acked[i] = (&packet.packets)[i];
 
                                         // Work out what a "fully acked" packet would look like
-                                        const uint8_t expected = i + 1 < s->acked.size() || packet.packet_count % 8 == 0
-                                                                     ? 0xFF
-                                                                     : 0xFF >> (8 - (packet.packet_count % 8));
+                                        // The last byte holds what is left over, which is nothing for a multiple of 8
+                                        const uint8_t expected =
+                                            i + 1 < s->acked.size() ? 0xFF : 0xFF >> (8 - (packet.packet_count % 8));
 
                                         all_acked = all_acked && ((s->acked[i] & expected) == expected);
                                     }
-- 
2.43.0


From cab619bfe31c74183f57d61cf5c8446449c2997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:22 +0000
Subject: [PATCH 38/42] fix: network messages were cut without an error when
 they had too many fragments

The number of fragments was truncated to 16 bits, so only the beginning of the
message arrived. An mtu too small for the headers wrapped around or divided by
zero.
---
 src/extension/network/NUClearNetwork.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index b0573c9..cf89a8c 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -29,6 +29,7 @@
 #include <cstring>
 #include <functional>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <mutex>
 #include <stdexcept>
@@ -353,6 +354,11 @@ namespace extension {
                                    const std::string& bind_address,
                                    uint16_t network_mtu) {
 
+            // There has to be room for data after the headers
+            if (network_mtu <= sizeof(DataPacket) - 1 + 40 + 8) {
+                throw std::invalid_argument("The mtu of the network is too small");
+            }
+
             // Close our existing FDs if they exist
             shutdown();
 
@@ -1105,6 +1111,11 @@ namespace extension {
                 throw std::runtime_error("Cannot send messages as the network is not connected");
             }
 
+            // The number of packets has to fit in the header
+            if (payload.size() / packet_data_mtu >= std::numeric_limits<uint16_t>::max()) {
+                throw std::runtime_error("Cannot send messages that are this large with the mtu of the network");
+            }
+
             // The header for our packet
             DataPacket header;
 
-- 
2.43.0


From 096fc3607dd464d5706e460cd32e9689314473ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:58 +0000
Subject: [PATCH 39/42] fix: the network was used by several threads at once

Sending, processing, configuring and shutting down ran concurrently in different
reactions while they share the sockets, timers and peers without any lock.
---
 src/extension/NetworkController.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 56158ee..5d9f31d 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -130,14 +130,15 @@ namespace extension {
             }
         });
 
-        on<Trigger<NetworkEmit>>().then("Network Emit", [this](const NetworkEmit& emit) {
+        // Everything that uses the network has to run one after another
+        on<Trigger<NetworkEmit>, Sync<NetworkController>>().then("Network Emit", [this](const NetworkEmit& emit) {
             network.send(emit.hash, emit.payload, emit.target, emit.reliable);
         });
 
-        on<Shutdown>().then("Shutdown Network", [this] { network.shutdown(); });
+        on<Shutdown, Sync<NetworkController>>().then("Shutdown Network", [this] { network.shutdown(); });
 
         // Configure the NUClearNetwork options
-        on<Trigger<NetworkConfiguration>>().then([this](const NetworkConfiguration& config) {
+        on<Trigger<NetworkConfiguration>, Sync<NetworkController>>().then([this](const NetworkConfiguration& config) {
             // Unbind our announce handle
             if (process_handle) {
                 process_handle.unbind();
@@ -158,10 +159,14 @@ namespace extension {
             network.reset(name, config.announce_address, config.announce_port, config.bind_address, config.mtu);
 
             // Execution handle
-            process_handle = on<Trigger<ProcessNetwork>>().then("Network processing", [this] { network.process(); });
+            process_handle = on<Trigger<ProcessNetwork>, Sync<NetworkController>>().then("Network processing", [this] {
+                network.process();
+            });
 
             for (auto& fd : network.listen_fds()) {
-                listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
+                listen_handles.push_back(on<IO, Sync<NetworkController>>(fd, IO::READ).then("Packet", [this] {
+                    network.process();
+                }));
             }
         });
     }
-- 
2.43.0


From 024275d39879eaa6e84f0070360bc93f7783fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:58 +0000
Subject: [PATCH 40/42] fix: the network never announced itself

The next processing was only scheduled by the one before and nothing started the
first, so two nodes only found each other if something else was received.
---
 src/extension/NetworkController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 5d9f31d..6c6b98f 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -168,6 +168,9 @@ namespace extension {
                     network.process();
                 }));
             }
+
+            // Announce ourselves, from then on the network asks for attention when it needs some
+            emit(std::make_unique<ProcessNetwork>());
         });
     }
 
-- 
2.43.0


From 0189fb394d9490433de89c21abeb81cb7f38e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 41/42] fix: data was left in the thread store when making a
 task threw

When the get of a word throws, for instance because a network message can't
be deserialised, the ThreadStore still pointed to the data of the emit, which
was gone by then. The next reaction of that type that the thread made a task
for read it.
---
 src/dsl/store/ThreadStore.hpp          | 18 ++++++++++++++++++
 src/dsl/word/emit/Inline.hpp           |  3 +++
 src/dsl/word/emit/Local.hpp            |  3 +++
 src/extension/IOController_Posix.ipp   |  1 +
 src/extension/IOController_Windows.ipp |  1 +
 5 files changed, 26 insertions(+)

diff --git a/src/dsl/store/ThreadStore.hpp b/src/dsl/store/ThreadStore.hpp
index 60d5faa..3aad6d4 100644
--- a/src/dsl/store/ThreadStore.hpp
+++ b/src/dsl/store/ThreadStore.hpp
@@ -51,6 +51,24 @@ namespace dsl {
         // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
         thread_local DataType* ThreadStore<DataType, index>::value = nullptr;
 
+        /**
+         * Removes what is in a ThreadStore at the end of a scope, however that is left.
+         *
+         * @tparam DataType the datatype that is stored
+         * @tparam Index    the index that is used
+         */
+        template <typename DataType, int Index = 0>
+        struct ThreadStoreReset {
+            ThreadStoreReset() = default;
+            ~ThreadStoreReset() {
+                ThreadStore<DataType, Index>::value = nullptr;
+            }
+            ThreadStoreReset(const ThreadStoreReset& /*other*/)              = delete;
+            ThreadStoreReset(ThreadStoreReset&& /*other*/) noexcept          = delete;
+            ThreadStoreReset& operator=(const ThreadStoreReset& /*rhs*/)     = delete;
+            ThreadStoreReset& operator=(ThreadStoreReset&& /*rhs*/) noexcept = delete;
+        };
+
     }  // namespace store
 }  // namespace dsl
 }  // namespace NUClear
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index a9cd1ec..fd00ea0 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -57,6 +57,9 @@ namespace dsl {
 
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
+                    // Making a task can throw, our thread local store data must not be left behind
+                    const store::ThreadStoreReset<std::shared_ptr<DataType>> reset;
+
                     // Run all our reactions that are interested
                     const auto reactions = store::TypeCallbackStore<DataType>::get();
                     for (const auto& reaction : *reactions) {
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 862c368..08eaa47 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -52,6 +52,9 @@ namespace dsl {
 
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
+                    // Making a task can throw, our thread local store data must not be left behind
+                    const store::ThreadStoreReset<std::shared_ptr<DataType>> reset;
+
                     // Run all our reactions that are interested
                     const auto reactions = store::TypeCallbackStore<DataType>::get();
                     for (const auto& reaction : *reactions) {
diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 395eaaf..456cd7d 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -154,6 +154,7 @@ namespace extension {
             e.events = task.waiting_events;
 
             // Make the task (which should run the get)
+            const dsl::store::ThreadStoreReset<IO::Event> reset;
             IO::ThreadEventStore::value = &e;
             r                           = task.reaction->get_task();
             IO::ThreadEventStore::value = nullptr;
diff --git a/src/extension/IOController_Windows.ipp b/src/extension/IOController_Windows.ipp
index 26c9227..e31cc05 100644
--- a/src/extension/IOController_Windows.ipp
+++ b/src/extension/IOController_Windows.ipp
@@ -80,6 +80,7 @@ namespace extension {
             task.waiting_events    = 0;
 
             // Make the task (which should run the get)
+            const dsl::store::ThreadStoreReset<IO::Event> reset;
             IO::ThreadEventStore::value = &e;
             r                           = task.reaction->get_task();
             IO::ThreadEventStore::value = nullptr;
-- 
2.43.0


From 3ba5ad0ccba6ed20d3bfd5ee3c450c67d8b96d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 42/42] fix: a network message that can't be deserialised
 stopped the others, inline network reactions could not bind

The exception left NUClearNetwork::process() before everything was done. The
reactions were submitted with the list of reactions locked, so one that is run
inline waited for itself when it bound or unbound a network reaction.
---
 src/extension/NetworkController.cpp | 40 ++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 6c6b98f..00e48b0 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -25,8 +25,11 @@
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
+#include <exception>
+#include <iterator>
 #include <memory>
 #include <mutex>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -62,25 +65,44 @@ namespace extension {
             // Move the payload in as we are stealing it
             const std::vector<uint8_t> p(std::move(payload));
 
+            // Find interested reactions, they may bind or unbind others when they run
+            std::vector<std::shared_ptr<threading::Reaction>> interested;
             /* Mutex Scope */ {
-                // Lock our reaction mutex
                 const std::lock_guard<std::mutex> lock(reaction_mutex);
-
-                // Find interested reactions
                 auto rs = reactions.equal_range(hash);
+                std::transform(rs.first, rs.second, std::back_inserter(interested), [](const auto& r) {
+                    return r.second;
+                });
+            }
 
-                // Execute on our interested reactions
-                for (auto it = rs.first; it != rs.second; ++it) {
+            // Make the tasks of our interested reactions
+            std::vector<std::unique_ptr<threading::ReactionTask>> tasks;
+            for (const auto& reaction : interested) {
+                std::string error = "Unknown exception";
+
+                // Data that can't be deserialised is a problem of whoever sent it
+                try {
                     // Store in our thread local cache
+                    const dsl::store::ThreadStoreReset<const std::vector<uint8_t>> reset_data;
+                    const dsl::store::ThreadStoreReset<const dsl::word::NetworkSource> reset_source;
                     dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
                     dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
 
-                    powerplant.submit(it->second->get_task());
+                    tasks.push_back(reaction->get_task());
+                    continue;
+                }
+                catch (const std::exception& ex) {
+                    error = ex.what();
                 }
+                catch (...) {  // NOLINT(bugprone-empty-catch)
+                }
+
+                log<LogLevel::WARN>("Could not deserialise a message from", src.name, error);
+            }
 
-                // Clear our cache
-                dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = nullptr;
-                dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = nullptr;
+            // Execute on our interested reactions
+            for (auto& task : tasks) {
+                powerplant.submit(std::move(task));
             }
         });
 
-- 
2.43.0

