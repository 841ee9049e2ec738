From 04de9eb64ff7e70e140f129e5bae40e15990b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/53] fix: MPSCQueue with capacity 1 accepted a second item
 over the first

---
 kio/sync/mpsc_queue.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..1c66522 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -58,10 +58,11 @@ namespace kio
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
-            // Initialize sequence numbers for each slot (no T construction)
+            // Initialize sequence numbers for each slot (no T construction). A slot is writable at position p when its
+            // sequence is 2 * p and readable when it is 2 * p + 1, so both states differ even with a capacity of 1.
             for (size_t i = 0; i < capacity; ++i)
             {
-                buffer_[i].sequence.store(i, std::memory_order_relaxed);
+                buffer_[i].sequence.store(2 * i, std::memory_order_relaxed);
             }
 
             enqueue_pos_.store(0, std::memory_order_relaxed);
@@ -90,11 +91,11 @@ namespace kio
                     Cell &cell = buffer_[i & mask_];
 
                     // Check if this cell contains a constructed object
-                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == i + 1)
+                    if (const size_t seq = cell.sequence.load(std::memory_order_relaxed); seq == 2 * i + 1)
                     {
                         cell.destroy_in_place();
                         // Mark as empty for safety
-                        cell.sequence.store(i + mask_ + 1, std::memory_order_relaxed);
+                        cell.sequence.store(2 * (i + mask_ + 1), std::memory_order_relaxed);
                     }
                 }
             }
@@ -115,7 +116,7 @@ namespace kio
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
 
-                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos); diff == 0)
+                if (const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos); diff == 0)
                 {
                     if (enqueue_pos_.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed, std::memory_order_relaxed))
                     {
@@ -135,7 +136,7 @@ namespace kio
             // Construct directly in cell storage from a forwarded argument
             cell->construct_in_place(std::forward<U>(u));
 
-            cell->sequence.store(pos + 1, std::memory_order_release);
+            cell->sequence.store(2 * pos + 1, std::memory_order_release);
             return true;
         }
 
@@ -152,7 +153,7 @@ namespace kio
             {
                 cell = &buffer_[pos & mask_];
                 const size_t seq = cell->sequence.load(std::memory_order_acquire);
-                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(pos + 1);
+                const intptr_t diff = static_cast<intptr_t>(seq) - static_cast<intptr_t>(2 * pos + 1);
 
                 if (diff == 0)
                 {
@@ -177,7 +178,7 @@ namespace kio
             cell->destroy_in_place();
 
             // Mark the slot as available for producers again:
-            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
+            cell->sequence.store(2 * (pos + mask_ + 1), std::memory_order_release);
 
             return true;
         }
-- 
2.43.0


From aa3c9597a476f2a18e33a587258096237791ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 02/53] fix: AsyncEvent::notify did not compile, it called a
 private member of Worker

---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From 075ab7dc57eceaead3a032baee063c3d4c1ca020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 03/53] fix: AsyncBaton::wait_for resumed a finished waiter
 when timer and notify raced

A timer that fired while the waiter was already posted by notify() resumed the
wait first and the posted handle later resumed a destroyed frame; the timer's
timespec could be freed before its submission; a baton notified before the
deadline could be reported as timed out. The timer now runs in a detached task
of its own and only the winner of WAITING -> NOT_SET/SET resumes the waiter.
---
 kio/sync/baton.h | 255 ++++++++---------------------------------------
 1 file changed, 41 insertions(+), 214 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..ca5854f 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -9,7 +9,8 @@
 #include <cassert>
 #include <chrono>
 #include <coroutine>
-#include <liburing.h>
+#include <exception>
+#include <memory>
 
 #include "kio/core/coro.h"
 #include "kio/core/worker.h"
@@ -123,136 +124,44 @@ namespace kio::sync
         {
             co_await io::SwitchToWorker(owner_);
 
-            struct TimeoutState
+            struct Awaiter
             {
                 AsyncBaton& baton;
                 std::chrono::nanoseconds duration;
+                std::shared_ptr<TimedWait> wait;
 
-                uint64_t timer_op_id = static_cast<uint64_t>(-1);
-                __kernel_timespec ts{};
-                bool timer_submitted = false;
-                bool baton_signaled = false;
-                std::atomic<bool> resumed{false};
+                bool await_ready() const noexcept { return baton.ready(); }
 
-                bool await_ready() noexcept
-                {
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        baton_signaled = true;
-                        return true;
-                    }
-                    return false;
-                }
-
-                bool await_suspend(std::coroutine_handle<> h) noexcept
+                bool await_suspend(std::coroutine_handle<> h)
                 {
-                    // Step 1: Register with baton FIRST
+                    // Register with the baton FIRST
                     baton.waiter_.store(h, std::memory_order_relaxed);
                     std::atomic_thread_fence(std::memory_order_release);
 
                     if (uint8_t expected = NOT_SET; !baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
                     {
                         // Baton already SET - no timeout needed
-                        baton_signaled = true;
                         return false;
                     }
 
-                    // Set up the timer (baton is now in WAITING state)
-                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
+                    run_timer(baton.owner_, wait, duration).detach();
 
-                    ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                    ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                    io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_));
-                    if (!sqe)
-                    {
-                        // Failed to get SQE - must unregister from baton
-                        io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                        timer_op_id = static_cast<uint64_t>(-1);
-
-                        if (uint8_t state = WAITING; baton.state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - immediate timeout
-                            baton_signaled = false;
-                            return false;
-                        }
-
-                        // Baton was signaled while we were cleaning up
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                    timer_submitted = true;
+                    // The timer could not be started: immediate timeout.
+                    if (wait->timed_out) return false;
 
+                    wait->waiter = h;
                     return true;
                 }
 
-                void await_resume()
+                [[nodiscard]] bool await_resume() const noexcept
                 {
-                    // Protect against double-resume
-                    if (resumed.exchange(true, std::memory_order_acq_rel))
-                    {
-                        // Already resumed once, this is a spurious resume
-                        return;
-                    }
-
-                    // Check if result was already determined in await_suspend
-                    if (!timer_submitted)
-                    {
-                        return;
-                    }
-
-                    // Determine who resumed us by checking baton state
-
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        // Baton signaled us
-                        baton_signaled = true;
-
-                        // We cannot safely cancel the timer because:
-                        // The timer CQE might already be in the completion queue
-                        // io_uring_prep_timeout_remove creates a NEW CQE with different op_id
-                        // The original timer CQE will still arrive with timer_op_id
-                        //
-                        // Solution: Let the timer complete naturally and ignore its CQE
-                        // by replacing the handler with noop_coroutine()
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // DO NOT attempt to cancel - just let it timeout naturally
-                        // The noop handler will safely consume the CQE when it arrives
-                    }
-                    else
-                    {
-                        // We were resumed by timer CQE
-                        // Try to unregister from baton
-                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - pure timeout
-                            baton_signaled = false;
-                        }
-                        else
-                        {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
-                        }
-                        // worker will release timer_op_id when processing the CQE
-                    }
-
-                    // Mark the timer as no longer active
-                    timer_submitted = false;
+                    // From now on the timer must not touch the baton nor the waiter.
+                    wait->baton = nullptr;
+                    return !wait->timed_out;
                 }
-
-                [[nodiscard]] bool was_signaled() const noexcept { return baton_signaled; }
             };
 
-            TimeoutState state{*this, timeout};
-            co_await state;
-            co_return state.was_signaled();
+            co_return co_await Awaiter{*this, timeout, std::make_shared<TimedWait>(this)};
         }
 
     private:
@@ -267,123 +176,41 @@ namespace kio::sync
         std::atomic<uint8_t> state_{NOT_SET};
         std::atomic<std::coroutine_handle<>> waiter_{nullptr};
 
-        struct TimeoutAwaiter
+        /**
+         * State of one wait_for, shared by the waiter and its timer. Only touched on the owner's thread.
+         * The timer may fire long after the wait ended, even after the baton was destroyed.
+         */
+        struct TimedWait
         {
-            AsyncBaton& baton;
-            std::chrono::nanoseconds duration;
-            bool& timer_won_out;
-            bool& baton_won_out;
+            AsyncBaton* baton;  // nullptr once the wait has ended
+            std::coroutine_handle<> waiter{};
+            bool timed_out{false};
 
-            // Internal state
-            uint64_t timer_op_id = -1;
-            // Stable storage for io_uring to read
-            struct __kernel_timespec ts{};
+            explicit TimedWait(AsyncBaton* b) : baton(b) {}
+        };
 
-            bool await_ready() const noexcept
+        static DetachedTask run_timer(io::Worker& owner, std::shared_ptr<TimedWait> wait, std::chrono::nanoseconds duration)
+        {
+            try
             {
-                // If we are in a race cleanup loop (Timer won but Baton posted),
-                // we are NOT ready and must suspend to catch the Baton post.
-                if (timer_won_out) return false;
-                return baton.ready();
+                // If no timer can be armed, this is an immediate timeout
+                (void) co_await owner.async_sleep(duration);
             }
-
-            bool await_suspend(std::coroutine_handle<> h) noexcept
+            catch (const std::exception& e)
             {
-                if (timer_won_out)
-                {
-                    // Cleanup pass: We know Baton posted us. Just suspend and wait for it.
-                    return true;
-                }
-
-                // 1. Prepare Timer
-                timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                {
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                }
-                else
-                {
-                    // Ring full fallback: treat as immediate timeout
-                    io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                    timer_won_out = true;
-                    return false;
-                }
-
-                // Register Baton
-                baton.waiter_.store(h, std::memory_order_relaxed);
-                std::atomic_thread_fence(std::memory_order_release);
-
-                if (uint8_t expected = NOT_SET; baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                {
-                    return true;  // Successfully suspended
-                }
-
-                // Baton is SET
-                // Cancel the timer immediately.
-                // We replace the callback with noop so the CQE is harmless.
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                // Try to remove the timeout from kernel to be clean
-                if (io_uring_sqe* cancel_sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                {
-                    io_uring_prep_timeout_remove(cancel_sqe, timer_op_id, 0);
-                    io_uring_sqe_set_data64(cancel_sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                }
-
-                // Resume immediately
-                return false;
+                ALOG_WARN("AsyncBaton: could not arm a timer: {}", e.what());
             }
 
-            void await_resume()
-            {
-                if (baton.ready())
-                {
-                    // Baton Signaled!
-                    baton_won_out = true;
+            if (wait->baton == nullptr) co_return;
 
-                    // If we started a timer, we must detach it
-                    if (timer_op_id != static_cast<uint64_t>(-1))
-                    {
-                        // Detach handler so future timeout/cancel CQE doesn't resume us
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // Request kernel removal
-                        if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                        {
-                            io_uring_prep_timeout_remove(sqe, timer_op_id, 0);
-                            // We grab a throwaway op_id for the removal just to keep accounting straight
-                            io_uring_sqe_set_data64(sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                        }
-                    }
-                }
-                else
-                {
-                    // Baton doesn't ready. Must be Timer?
-                    // Try to unregister from Baton.
-                    if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Successfully removed from Baton. Pure Timeout.
-                        timer_won_out = true;
-                        // Timer op_id is released by Worker loop when processing CQE
-                    }
-                    else
-                    {
-                        // CAS Failed. Baton is SET.
-                        // This means Notify happened concurrently and posted us to Task Queue.
-                        // We are currently running (via Timer).
-                        // We MUST loop again to consume the pending Baton resume.
-                        timer_won_out = true;
-                        // baton_won_out stays false for now, ensuring loop continues
-                    }
-                }
+            // Whoever changes the state away from WAITING resumes the waiter, so it is resumed exactly once.
+            // If this fails the baton has been notified, and notify() posts the waiter.
+            if (uint8_t expected = WAITING; wait->baton->state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
+            {
+                wait->timed_out = true;
+                if (wait->waiter) wait->waiter.resume();
             }
-        };
+        }
     };
 
 }  // namespace kio::sync
-- 
2.43.0


From 0fc34258ea5f3ca029959ce1d1526cfd640dc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 04/53] fix: when_any never resumed its caller if the tasks
 failed with an exception

---
 kio/sync/when_any.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 9596563..60782df 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -43,8 +43,19 @@ namespace kio::sync
         template<size_t Index, size_t N, typename Task>
         DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task task)
         {
-            // Run the task
-            co_await task;
+            // Run the task. A task that fails has completed as well.
+            try
+            {
+                co_await task;
+            }
+            catch (const std::exception& e)
+            {
+                ALOG_ERROR("when_any: task {} failed: {}", Index, e.what());
+            }
+            catch (...)
+            {
+                ALOG_ERROR("when_any: task {} failed with an unknown exception", Index);
+            }
 
             // Try to win the race
             if (state->try_win(Index))
-- 
2.43.0


From c4b91b682e1caba78fdc59a62ab7f14fb48fb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 05/53] fix: an operation refused for lack of op slots
 submitted a stale SQE

The SQE was taken before the op id; if the slot pool was exhausted the
exception left an unprepared SQE in the queue, which repeated whatever the
entry held before.
---
 kio/core/uring_awaitable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..372a397 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,19 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // Allocate an op id first: it throws if the slots are exhausted, and an SQE, once taken, is always submitted.
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From c6985e2b5f56da90b2309b506214879b85dbd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 06/53] fix: op slot pool did not grow if small and popped from
 an empty free list

---
 kio/core/worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..4773971 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,9 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // always grow by at least one slot, however small the pool or the factor is
+        size_t new_size = std::max(cur_size + 1, static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor));
+        new_size = std::min(new_size, config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From 9fac8f1b2968c7a64b7499299126b2a77d6e6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 07/53] fix: a worker died when a full submission queue could
 not be flushed at once

With the SQ full and io_uring_enter failing transiently, re-arming the wakeup
read threw out of the event loop and ended the worker. Re-arming is now retried
before the loop blocks again.
---
 kio/core/worker.cpp | 16 ++++++++++------
 kio/core/worker.h   |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 4773971..3fa6390 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -176,6 +176,9 @@ namespace kio::io
         // event loop (split out to reuse the same logic as before)
         while (!stop_token_.stop_requested())
         {
+            // A wakeup read which could not be re-armed for lack of SQEs is retried before the loop blocks again
+            if (!wakeup_armed_) submit_wakeup_read();
+
             if (auto sqe_num = submit_sqes_wait(); sqe_num > 0)
             {
                 ALOG_TRACE("Worker {} submitted {} operations", id_, sqe_num);
@@ -232,7 +235,8 @@ namespace kio::io
 
     int Worker::submit_sqes_wait()
     {
-        const int ret = io_uring_submit_and_wait(&ring_, 1);
+        // Without a wakeup read in flight nothing could interrupt the wait: just submit, to make room for it
+        const int ret = wakeup_armed_ ? io_uring_submit_and_wait(&ring_, 1) : io_uring_submit(&ring_);
         check_syscall_return(ret);
         return ret;
     }
@@ -251,6 +255,7 @@ namespace kio::io
             if (op_id == kWakeupOpID)
             {
                 ALOG_TRACE("Worker {} waked up", id_);
+                wakeup_armed_ = false;
                 // This was a wake-up event. Drain the task queue.
                 std::coroutine_handle<> h;
                 while (task_queue_.try_pop(h))
@@ -345,16 +350,15 @@ namespace kio::io
             sqe = io_uring_get_sqe(&ring_);
             if (sqe == nullptr)
             {
-                // Still full - this is CRITICAL
-                ALOG_ERROR("Worker {}: Cannot submit wakeup read - SQ exhausted!", id_);
-                ALOG_ERROR("Worker may not wake up on stop signal!");
-                // This is a fatal, we cannot progress anymore
-                throw std::runtime_error("Failed to submit wakeup read");
+                // Still full, the kernel could not take the submissions right now. The loop tries again.
+                ALOG_WARN("Worker {}: Cannot submit wakeup read yet - SQ exhausted", id_);
+                return;
             }
         }
 
         io_uring_prep_read(sqe, wakeup_fd_, &wakeup_buffer_, sizeof(wakeup_buffer_), 0);
         io_uring_sqe_set_data64(sqe, kWakeupOpID);
+        wakeup_armed_ = true;
         ALOG_TRACE("Worker {} submitted wakeup read SQE", id_);
     }
 
diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..6b2f098 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -152,6 +152,8 @@ namespace kio::io
         // To immediately wake up the worker loop
         int wakeup_fd_{-1};
         uint64_t wakeup_buffer_{0};
+        // whether a read of wakeup_fd_ is queued or in flight
+        bool wakeup_armed_{false};
 
         std::latch init_latch_{1};
         std::latch shutdown_latch_{1};
-- 
2.43.0


From 1fe29a8116a4e926ea28515f2532406735c5765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 08/53] fix: the metrics page rounded every value to 6
 significant digits

---
 kio/metrics/serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..e519459 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -3,6 +3,7 @@
 //
 #include "kio/metrics/serializer.h"
 
+#include <format>
 #include <sstream>
 
 #include "kio/metrics/utils.h"
@@ -32,7 +33,8 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                // The shortest text that reads back as the same value: streams round to 6 significant digits
+                ss << " " << std::format("{}", sample.value) << "\n";
             }
             // Extra newline between families
             ss << "\n";
-- 
2.43.0


From 79d8cc7c667dcb646583f7bd2f92e23cc10fadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 09/53] fix: BuildFamily added a second family under a name
 that already existed

---
 kio/metrics/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..33ef379 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -69,6 +69,11 @@ namespace kio
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            // Several collectors report the same metric: a name may appear only once in the exposition format
+            for (auto& family: families_)
+            {
+                if (family.name == name) return family;
+            }
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
-- 
2.43.0


From 5a0ba30acb234d5111374faae1d279770d5bc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 10/53] fix: a worker failing after it was ready counted its
 latches below zero, waiting for it hung

---
 kio/core/worker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 3fa6390..da9f303 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -227,9 +227,9 @@ namespace kio::io
         catch (const std::exception &e)
         {
             ALOG_ERROR("Worker {} failed during run(): {}", id_, e.what());
-            // ensure latches are released so the pool doesn't wait forever
-            signal_init_complete();
-            signal_shutdown_complete();
+            // ensure latches are released so the pool doesn't wait forever, but never twice: a latch below zero blocks
+            if (!init_latch_.try_wait()) signal_init_complete();
+            if (!shutdown_latch_.try_wait()) signal_shutdown_complete();
         }
     }
 
-- 
2.43.0


From 43c00ce1e6f8a27472f5e6f08dd3802d2dafc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 11/53] fix: a worker reported its shutdown before it resumed
 its last coroutines

---
 kio/core/worker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index da9f303..b793692 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -186,6 +186,9 @@ namespace kio::io
             process_completions();
         }
 
+        // completions which arrived with the stop request still resume their coroutines, before anyone is told we are down
+        drain_completions();
+
         ALOG_INFO("Worker {} loop shut down completed", this->id_);
 
         // signal shutdown for anyone waiting
@@ -221,8 +224,6 @@ namespace kio::io
             loop();
 
             ALOG_INFO("Worker {} exited event loop", id_);
-
-            drain_completions();
         }
         catch (const std::exception &e)
         {
-- 
2.43.0


From 7bdf9ece2ac747718804ecf649401433f2ce4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 12/53] fix: destroying a worker whose ring was never set up
 closed descriptor 0

---
 kio/core/worker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index b793692..8fb4a42 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -107,6 +107,9 @@ namespace kio::io
     {
         config_.check();
 
+        // no ring yet: 0 is a valid descriptor which the destructor must not close
+        ring_.ring_fd = -1;
+
         wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
         if (wakeup_fd_ < 0)
         {
@@ -129,6 +132,8 @@ namespace kio::io
 
         if (const int ret = io_uring_queue_init_params(static_cast<int>(config_.uring_queue_depth), &ring_, &params); ret < 0)
         {
+            // nothing to tear down
+            ring_.ring_fd = -1;
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
 
-- 
2.43.0


From b644c42741a0ea4bcaa0de4423f1ce9b60b9a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 13/53] fix: IOPool hung when it could not start one of its
 threads

---
 kio/core/worker_pool.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 1fcac47..177a2ac 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -23,9 +23,18 @@ namespace kio::io
         }
 
         // Start threads after all workers are created
-        for (const auto &worker: workers_)
+        try
+        {
+            for (const auto &worker: workers_)
+            {
+                worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            }
+        }
+        catch (...)
         {
-            worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            // the threads already started are joined when the members are destroyed: let them end
+            for (const auto &worker: workers_) (void) worker->request_stop();
+            throw;
         }
 
         // Wait for all workers to be fully initialized
-- 
2.43.0


From b3f83be799e5e0f7c57cd85cf6700c671b4460bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 14/53] fix: the logger did not wake its consumer for a message
 that could not be formatted

---
 kio/core/async_logger.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..ee83919 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -215,17 +215,7 @@ namespace kio {
                     entry.set_large_message(std::move(large));
                 }
 
-                if (queue_.try_push(std::move(entry))) {
-                    if (wakeup_fd_ >= 0) {
-                        constexpr uint64_t val = 1;
-                        if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
-                            std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
-                                    std::endl;
-                        }
-                    }
-                } else {
-                    std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
-                }
+                enqueue(std::move(entry));
             } catch (const std::exception &e) {
                 std::string fallback = std::string("<log format error: ") + e.what() + ">";
                 LogMessage entry{};
@@ -240,7 +230,22 @@ namespace kio {
                 } else {
                     entry.set_large_message(std::move(fallback));
                 }
-                (void) queue_.try_push(std::move(entry));
+                enqueue(std::move(entry));
+            }
+        }
+
+        // Hands the message to the consumer and wakes it up, or drops the message
+        void enqueue(LogMessage &&entry) {
+            if (queue_.try_push(std::move(entry))) {
+                if (wakeup_fd_ >= 0) {
+                    constexpr uint64_t val = 1;
+                    if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
+                        std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
+                                std::endl;
+                    }
+                }
+            } else {
+                std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
             }
         }
 
-- 
2.43.0


From 18837f9e95627dd78f09f1f0c7d916cd6acb76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 15/53] fix: Logger::flush raced with the consumer thread on
 the single-consumer queue

---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index ee83919..8fb5f40 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -182,6 +183,8 @@ namespace kio {
         }
 
         void flush() {
+            // the queue allows one consumer at a time, and the consumer thread flushes too
+            std::lock_guard lock(flush_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -319,6 +322,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex flush_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From 0ece01d4772d30a28fa3ee52b81541e24a192e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 16/53] fix: FileManager served a path by another worker before
 its file was created than after

---
 kio/fs/fs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 4feb4b2..df9b7b7 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -14,7 +14,8 @@ namespace kio
     {
         try
         {
-            return std::filesystem::canonical(path).string();
+            // the same for a file that does not exist yet as after it was created
+            return std::filesystem::weakly_canonical(std::filesystem::absolute(path)).string();
         }
         catch (const std::filesystem::filesystem_error &e)
         {
-- 
2.43.0


From 70c621cd073eeb810d50486141b2843f9dcc2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 17/53] fix: a File assigned from another manager's file kept
 using its old manager's workers

---
 kio/fs/fs.cpp | 4 ++--
 kio/fs/fs.h   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index df9b7b7..43a3022 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -45,7 +45,7 @@ namespace kio
 
     Task<Result<size_t> > File::async_read(std::span<char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
@@ -62,7 +62,7 @@ namespace kio
     // NOSONAR: buffer lifetime is controlled by caller, safe across suspend
     Task<Result<size_t> > File::async_write(std::span<const char> buf, const uint64_t offset) const
     {
-        auto *worker = pool_.get_worker(worker_id_);
+        auto *worker = pool_->get_worker(worker_id_);
         if (!worker)
         {
             co_return std::unexpected(Error::from_errno(EINVAL));
diff --git a/kio/fs/fs.h b/kio/fs/fs.h
index 0180d15..95ee8dc 100644
--- a/kio/fs/fs.h
+++ b/kio/fs/fs.h
@@ -15,11 +15,11 @@ namespace kio
     class File
     {
         int fd_{-1};
-        io::IOPool &pool_;
+        io::IOPool *pool_;
         size_t worker_id_{0};
 
     public:
-        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(pool), worker_id_(worker_id) { assert(fd_ >= 0); }
+        File(const int fd, io::IOPool &pool, size_t worker_id) : fd_(fd), pool_(&pool), worker_id_(worker_id) { assert(fd_ >= 0); }
 
         // File is not copyable
         File(const File &) = delete;
@@ -40,7 +40,7 @@ namespace kio
             {
                 if (fd_ != -1) ::close(fd_);  // Close existing fd first
                 fd_ = other.fd_;
-                // pool_ reference stays bound to the same pool (can't be rebound)
+                pool_ = other.pool_;
                 worker_id_ = other.worker_id_;
                 other.fd_ = -1;
             }
-- 
2.43.0


From b19bca0a087ba98e2ad43b4675b876f68ee2a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 18/53] fix: accepting with a SocketAddress never reported the
 peer's address

---
 kio/core/worker.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 6b2f098..78299fd 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -264,7 +264,11 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
-- 
2.43.0


From c721f590e7e7e9e590e90ed0b6dbe41e3bea3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 19/53] fix: a HELP text with a line feed or backslash made the
 metrics page malformed

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index e519459..e97d558 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -15,7 +15,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << SanitizeHelp(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..c1a8250 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -56,6 +56,28 @@ namespace kio
         return out;
     }
 
+    // In a HELP text only backslashes and line feeds are escaped
+    inline std::string SanitizeHelp(const std::string& v)
+    {
+        std::string out;
+        for (const char c: v)
+        {
+            switch (c)
+            {
+                case '\\':
+                    out += "\\\\";
+                    break;
+                case '\n':
+                    out += "\\n";
+                    break;
+                default:
+                    out += c;
+                    break;
+            }
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From 447f62757e4c4ede70802bea026bab98439a878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 20/53] fix: stopping or destroying a MetricsServer that was
 never started hung

---
 kio/metrics/server.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 5af7d8b..e0cbc94 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -109,6 +109,18 @@ namespace kio
             return;
         }
 
+        if (!ev_thread_.joinable())
+        {
+            // Never started: there is no loop whose end could be waited for
+            ALOG_WARN("MetricsServer was not started");
+            if (server_fd_ >= 0)
+            {
+                ::close(server_fd_);
+                server_fd_ = -1;
+            }
+            return;
+        }
+
         ALOG_INFO("Stopping MetricsServer...");
 
         // Stop worker
-- 
2.43.0


From 4e448f24fc5d4f58c43250e118f82978e819f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 21/53] fix: MetricsServer stopped accepting for good, or span,
 when an accept could not be submitted

---
 kio/metrics/server.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index e0cbc94..c072c31 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -66,6 +66,15 @@ namespace kio
             }
         };
 
+        // Resumes the coroutine from the worker's task queue, after the worker had a chance to submit and complete other operations
+        struct YieldToWorker
+        {
+            Worker& worker;
+            bool await_ready() const noexcept { return false; }
+            void await_suspend(std::coroutine_handle<> h) const { io::internal::WorkerAccess::post(worker, h); }
+            void await_resume() const noexcept {}
+        };
+
     }  // anonymous namespace
 
     MetricsServer::MetricsServer(std::string bind_addr, const uint16_t port, io::WorkerConfig config) : bind_addr_(std::move(bind_addr)), port_(port)
@@ -154,7 +163,16 @@ namespace kio
             sockaddr_storage client_addr{};
             socklen_t addr_len = sizeof(client_addr);
 
-            auto res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            Result<int> res = std::unexpected(Error::from_errno(EAGAIN));
+            try
+            {
+                res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            }
+            catch (const std::exception& e)
+            {
+                // no operation slot left
+                ALOG_WARN("Metrics accept failed: {}", e.what());
+            }
 
             if (!res.has_value())
             {
@@ -162,6 +180,8 @@ namespace kio
                 {
                     ALOG_WARN("Metrics accept failed: {}", res.error().value);
                 }
+                // An accept for which there was no SQE or slot fails without suspending, it would be tried forever without anything being submitted
+                co_await YieldToWorker{worker};
                 continue;
             }
 
-- 
2.43.0


From 25f8b0c6f3e1c0a521cd11b80b8b59e37342e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 22/53] fix: coroutines posting each other on a worker kept it
 from any I/O and from stopping

---
 kio/core/worker.cpp | 10 ++++++++--
 kio/core/worker.h   |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 8fb4a42..5fe9568 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -262,12 +262,18 @@ namespace kio::io
             {
                 ALOG_TRACE("Worker {} waked up", id_);
                 wakeup_armed_ = false;
-                // This was a wake-up event. Drain the task queue.
+                // This was a wake-up event. Drain the task queue, then resume: tasks posted meanwhile have their own
+                // wake-up, running them here would let coroutines which post each other keep the worker from any I/O.
                 std::coroutine_handle<> h;
                 while (task_queue_.try_pop(h))
                 {
-                    h.resume();
+                    ready_tasks_.push_back(h);
                 }
+                for (const auto task: ready_tasks_)
+                {
+                    task.resume();
+                }
+                ready_tasks_.clear();
 
                 // Only re-arm the wakeup read if not stopping
                 // This prevents a pending operation during shutdown
diff --git a/kio/core/worker.h b/kio/core/worker.h
index 78299fd..56e24ce 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -146,6 +146,8 @@ namespace kio::io
         std::vector<io_op_data> op_data_pool_;
         // Lock-free queue for coroutines posted from other threads
         MPSCQueue<std::coroutine_handle<>> task_queue_;
+        // tasks taken from the queue, about to be resumed
+        std::vector<std::coroutine_handle<>> ready_tasks_;
 
         // max uint64 is reserved and should not be used as free op id
         std::vector<uint64_t> free_op_ids;
-- 
2.43.0


From 875e5618044ec2b6b964d5d15646705bccbc18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 23/53] fix: connections being served or accepted when
 MetricsServer stopped were never closed

---
 kio/metrics/server.cpp | 19 +++++++++++++++++++
 kio/metrics/server.h   |  7 +++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index c072c31..9c48801 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -132,6 +132,9 @@ namespace kio
 
         ALOG_INFO("Stopping MetricsServer...");
 
+        // Ends the pending accept: closing the descriptor does not, it could take another connection nobody would close
+        ::shutdown(server_fd_, SHUT_RDWR);
+
         // Stop worker
         if (worker_->request_stop())
         {
@@ -144,6 +147,13 @@ namespace kio
             ev_thread_.join();
         }
 
+        // The loop has ended, clients it was still serving are never resumed: close their connections for them
+        for (const int fd: client_fds_)
+        {
+            ::close(fd);
+        }
+        client_fds_.clear();
+
         // Close server socket
         if (server_fd_ >= 0)
         {
@@ -192,6 +202,15 @@ namespace kio
 
     DetachedTask MetricsServer::handle_client(Worker& worker, FDGuard fd)
     {
+        // Forgotten before the guard closes the descriptor
+        struct Registration
+        {
+            std::unordered_set<int>& fds;
+            int fd;
+            Registration(std::unordered_set<int>& s, const int f) : fds(s), fd(f) { fds.insert(fd); }
+            ~Registration() { fds.erase(fd); }
+        } registration(client_fds_, fd.get());
+
         // Use BytesMut for dynamic buffering
         BytesMut buffer(1024);
 
diff --git a/kio/metrics/server.h b/kio/metrics/server.h
index 99eb8b9..2ef1bac 100644
--- a/kio/metrics/server.h
+++ b/kio/metrics/server.h
@@ -5,6 +5,7 @@
 #ifndef KIO_SERVER_H
 #define KIO_SERVER_H
 #include <string_view>
+#include <unordered_set>
 
 #include "../net/net.h"
 #include "kio/core/worker.h"
@@ -89,15 +90,17 @@ namespace kio
         [[nodiscard]] std::string address() const { return std::format("http://{}:{}/metrics", bind_addr_, port_); }
 
     private:
-        static DetachedTask accept_loop(io::Worker& worker, int server_fd);
+        DetachedTask accept_loop(io::Worker& worker, int server_fd);
         std::string bind_addr_;
         uint16_t port_;
         std::unique_ptr<io::Worker> worker_;
         std::jthread ev_thread_;
         int server_fd_{-1};
+        // connections being served, touched on the worker thread only while the loop runs
+        std::unordered_set<int> client_fds_;
 
         // HTTP request handler
-        static DetachedTask handle_client(io::Worker& worker, net::FDGuard fd);
+        DetachedTask handle_client(io::Worker& worker, net::FDGuard fd);
 
         // HTTP response builders
         static std::string build_response(detail::HttpStatusCode code, std::string_view content_type, std::string_view body);
-- 
2.43.0


From 83bdbd073a51c7330fde9161b66e8a1472a8d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 24/53] fix: a RESP bulk payload not followed by CRLF was
 accepted, the frames after it were misread

---
 kio/resp/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..349c629 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,9 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must end where its length says
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From dd76738e1d3ba176c322e37797f385aa610a75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 25/53] fix: a RESP null with a payload was accepted

---
 kio/resp/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 349c629..2433696 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -187,9 +187,11 @@ namespace kio::resp
 
                 return FrameHeader{type, data.data(), *pos + 2, 0};
             }
+            case FrameType::Null:
+                if (*pos != 1) return std::unexpected(ParseError::MalformedFrame);
+                return FrameHeader{type, data.data(), *pos + 2, 0};
             case FrameType::SimpleString:
             case FrameType::SimpleError:
-            case FrameType::Null:
                 return FrameHeader{type, data.data(), *pos + 2, 0};
             case FrameType::BulkString:
             case FrameType::BulkError:
-- 
2.43.0


From 48e87596cf8d330da634ee2192fb6e6ada698115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 26/53] fix: RESP integers and doubles with a plus sign were
 rejected

---
 kio/resp/parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2433696..0bef230 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -45,6 +45,13 @@ namespace kio::resp
         return std::nullopt;
     }
 
+    // from_chars takes no plus sign, the protocol allows one before the digits
+    static std::string_view skip_plus(std::string_view s)
+    {
+        if (s.size() > 1 && s[0] == '+' && s[1] != '-') s.remove_prefix(1);
+        return s;
+    }
+
     static std::optional<double> parse_double(std::string_view s)
     {
         if (s.empty()) return std::nullopt;
@@ -53,6 +60,7 @@ namespace kio::resp
         if (s == "-inf") return -std::numeric_limits<double>::infinity();
         if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
 
+        s = skip_plus(s);
         double val;
         auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);
         if (ec == std::errc() && ptr == s.data() + s.size()) return val;
@@ -153,7 +161,7 @@ namespace kio::resp
             case FrameType::Integer:
             {
                 // Validation: ensure it is a valid 64-bit integer
-                if (!parse_int({data.data() + 1, *pos - 1}))
+                if (!parse_int(skip_plus({data.data() + 1, *pos - 1})))
                 {
                     return std::unexpected(ParseError::Atoi);
                 }
-- 
2.43.0


From b70a1a28d77cac74c572b97fd47bf537c5717df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 27/53] fix: BytesMut::commit_write accepted a count which
 overflows, moving the write position back

---
 kio/core/bytes_mut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..c0c1484 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -151,7 +151,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From 7223442022c36e81d8b8625e3e70601dee721118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 28/53] fix: BytesMut::reserve of a size which overflows
 returned without making room

---
 kio/core/bytes_mut.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index c0c1484..b841985 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -65,6 +65,11 @@ namespace kio
             const size_t data_len = remaining();
             const size_t available_total = buffer_.capacity();
 
+            if (additional > buffer_.max_size() - write_pos_)
+            {
+                throw std::length_error("BytesMut::reserve() beyond the maximal size");
+            }
+
             // Strategy 1: Compact in place if it fits
             if (available_total >= data_len + additional) {
                 // Threshold: only compact if significant waste
-- 
2.43.0


From 6fab471febd054c3aa397edfc0005b03724e02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 29/53] fix: a BytesMut moved from kept cursors into memory it
 no longer owned

---
 kio/core/bytes_mut.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index b841985..fc7b276 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -8,6 +8,7 @@
 #include <format>
 #include <span>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace kio
@@ -55,6 +56,24 @@ namespace kio
             buffer_.resize(initial_capacity);
         }
 
+        // A buffer moved from is empty: its cursors must not point into memory it no longer owns
+        BytesMut(BytesMut&& other) noexcept
+            : buffer_(std::exchange(other.buffer_, {})), read_pos_(std::exchange(other.read_pos_, 0)), write_pos_(std::exchange(other.write_pos_, 0))
+        {
+        }
+        BytesMut& operator=(BytesMut&& other) noexcept
+        {
+            if (this != &other)
+            {
+                buffer_ = std::exchange(other.buffer_, {});
+                read_pos_ = std::exchange(other.read_pos_, 0);
+                write_pos_ = std::exchange(other.write_pos_, 0);
+            }
+            return *this;
+        }
+        BytesMut(const BytesMut&) = default;
+        BytesMut& operator=(const BytesMut&) = default;
+
         /**
          * @brief Ensures at least `additional` bytes of writable space.
          * May trigger reallocation.
-- 
2.43.0


From e6298e9c8a352c29dc6ca73fb0afb9abd62eff0b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 30/53] fix: bitcask writes one entry of a partition after
 another, so that none lands on another's place

---
 bitcask/include/async_mutex.h |  76 +++++++++++++++++++++++++
 bitcask/include/partition.h   |   8 ++-
 bitcask/src/partition.cpp     | 101 ++++++++++++++++++----------------
 3 files changed, 135 insertions(+), 50 deletions(-)
 create mode 100644 bitcask/include/async_mutex.h

diff --git a/bitcask/include/async_mutex.h b/bitcask/include/async_mutex.h
new file mode 100644
index 0000000..6c6db46
--- /dev/null
+++ b/bitcask/include/async_mutex.h
@@ -0,0 +1,76 @@
+#ifndef KIO_BITCASK_ASYNC_MUTEX_H
+#define KIO_BITCASK_ASYNC_MUTEX_H
+
+#include <coroutine>
+#include <deque>
+#include <utility>
+
+namespace bitcask
+{
+    /**
+     * @brief FIFO mutex for the coroutines of one worker.
+     *
+     * A suspended coroutine lets others run on the same worker, so a section that awaits I/O and must not be interleaved
+     * needs it. NOT thread-safe: use it on the thread of the worker only.
+     *
+     * Usage: const auto guard = co_await mutex.lock();
+     */
+    class AsyncMutex
+    {
+    public:
+        class [[nodiscard]] Guard
+        {
+            AsyncMutex* mutex_;
+
+        public:
+            explicit Guard(AsyncMutex& mutex) : mutex_(&mutex) {}
+            Guard(Guard&& other) noexcept : mutex_(std::exchange(other.mutex_, nullptr)) {}
+            Guard(const Guard&) = delete;
+            Guard& operator=(const Guard&) = delete;
+            Guard& operator=(Guard&&) = delete;
+            ~Guard()
+            {
+                if (mutex_ != nullptr) mutex_->unlock();
+            }
+        };
+
+        AsyncMutex() = default;
+        AsyncMutex(const AsyncMutex&) = delete;
+        AsyncMutex& operator=(const AsyncMutex&) = delete;
+
+        [[nodiscard]] auto lock() noexcept
+        {
+            struct Awaiter
+            {
+                AsyncMutex& mutex_;
+                [[nodiscard]] bool await_ready() const noexcept { return !std::exchange(mutex_.locked_, true); }
+                void await_suspend(const std::coroutine_handle<> h) const { mutex_.waiters_.push_back(h); }
+                [[nodiscard]] Guard await_resume() const noexcept { return Guard(mutex_); }
+            };
+            return Awaiter{*this};
+        }
+
+    private:
+        bool locked_{false};
+        bool resuming_{false};
+        std::deque<std::coroutine_handle<>> waiters_;
+
+        void unlock()
+        {
+            locked_ = false;
+            // A waiter that unlocks without suspending returns here: waiters are resumed in a loop, not recursively
+            if (resuming_) return;
+            resuming_ = true;
+            while (!locked_ && !waiters_.empty())
+            {
+                locked_ = true;
+                const auto next = waiters_.front();
+                waiters_.pop_front();
+                next.resume();
+            }
+            resuming_ = false;
+        }
+    };
+}  // namespace bitcask
+
+#endif  // KIO_BITCASK_ASYNC_MUTEX_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..3c2e7b8 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -6,6 +6,7 @@
 #define KIO_BITCASK_PARTITION_H
 
 #include "kio/sync/baton.h"
+#include "async_mutex.h"
 #include "compactor.h"
 #include "data_file.h"
 #include "entry.h"
@@ -41,6 +42,9 @@ namespace bitcask
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
+        // Held while the active file is written, synced or replaced: entries get their place in the log one after another
+        AsyncMutex write_mutex_;
+
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
@@ -77,7 +81,7 @@ namespace bitcask
         // recover the partition and runtime stats
         kio::Task<kio::Result<void>> recover();
         kio::Task<bool> try_recover_from_hint(uint64_t file_id);
-        kio::Task<kio::Result<void>> create_and_set_active_file();
+        kio::Task<kio::Result<std::unique_ptr<DataFile>>> create_data_file();
         /**
          * Seal the active file, truncate it to the actual db size.
          * This method invalidates the active file.
@@ -127,7 +131,7 @@ namespace bitcask
         [[nodiscard]] const FDCache::Stats& get_cache_stats() const { return fd_cache_.get_stats(); }
         [[nodiscard]] std::filesystem::path db_path() const { return config_.directory / std::format("partition_{}", partition_id_); }
         [[nodiscard]] uint64_t partition_id() const { return partition_id_; }
-        [[nodiscard]] uint64_t active_file_id() const { return active_file_->file_id(); }
+        [[nodiscard]] uint64_t active_file_id() const { return active_file_ ? active_file_->file_id() : 0; }
     };
 }  // namespace bitcask
 
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..5960f62 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -4,6 +4,12 @@ using namespace bitcask;
 using namespace kio;
 using namespace kio::io;
 
+namespace
+{
+    // What operations on a closed partition fail with
+    Error closed_error() { return Error::from_errno(EBADF); }
+}  // namespace
+
 Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id) :
     keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker)
 {
@@ -12,10 +18,9 @@ Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t p
 
 Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_mutex_.lock();
+    if (!active_file_) co_return std::unexpected(closed_error());
 
     if (active_file_->should_rotate(config_.max_file_size))
     {
@@ -56,10 +61,8 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 
 Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
+    if (!active_file_) co_return std::unexpected(closed_error());
     stats_.gets_total++;
 
     const auto it = keydir_.find(key);
@@ -87,33 +90,35 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
 
 Task<Result<void>> Partition::del(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_mutex_.lock();
+    if (!active_file_) co_return std::unexpected(closed_error());
 
     stats_.deletes_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    if (!keydir_.contains(key))
     {
         co_return {};
     }
 
-    // Update stats for old location
+    if (active_file_->should_rotate(config_.max_file_size))
+    {
+        KIO_TRY(co_await rotate_active_file());
+    }
+
+    // Write the tombstone first: the key is deleted once the log says so
+    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
+    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
+
+    // Remove the key from where it is now: compaction may have moved it meanwhile, but nobody else removes it
+    const auto it = keydir_.find(key);
     auto& old_stats = stats_.data_files[it->second.file_id];
     old_stats.live_bytes -= it->second.total_size;
     old_stats.live_entries--;
 
     const uint64_t old_file_id = it->second.file_id;
-
-    // Remove from KeyDir first as it's our source of truth
     keydir_.erase(it);
 
-    // Write tombstone
-    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
-    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
-
     // Update active file stats (tombstone adds to total_bytes)
     auto& active_stats = stats_.data_files[active_file_->file_id()];
     active_stats.total_bytes += size;
@@ -131,9 +136,14 @@ Task<Result<void>> Partition::del(const std::string& key)
 Task<Result<int>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
-    if (file_id == active_file_->file_id())
+    if (file_id == active_file_id())
     {
-        KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
+        const auto guard = co_await write_mutex_.lock();
+        // it may have been sealed, thus flushed, meanwhile
+        if (file_id == active_file_id())
+        {
+            KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
+        }
     }
 
     const auto path = get_data_file_path(file_id);
@@ -151,46 +161,43 @@ Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t
     co_return entry;
 }
 
+// The caller holds write_mutex_
 Task<Result<void>> Partition::rotate_active_file()
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     // Get the actual written size before flushing and closing
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
 
     // Flush
-    KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
+    KIO_TRY(co_await worker_.async_fsync(active_fd));
 
     // truncate to the actual used space
     KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
 
-    // close
-    KIO_TRY(co_await active_file_->async_close());
+    // Create a new active file; until it exists, the current one stays usable
+    auto next = KIO_TRY(co_await create_data_file());
+    std::swap(active_file_, next);
+    stats_.file_rotations_total++;
 
+    // close
     // No need to add to FD cache as it will be done when needed
-
-    // Create a new active file
-    KIO_TRY(co_await create_and_set_active_file());
-
-    stats_.file_rotations_total++;
+    KIO_TRY(co_await next->async_close());
 
     co_return {};
 }
 
-Task<Result<void>> Partition::create_and_set_active_file()
+Task<Result<std::unique_ptr<DataFile>>> Partition::create_data_file()
 {
     uint64_t new_id = file_id_gen_.next();
     int new_fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(new_id), config_.write_flags, config_.file_mode));
 
-    active_file_ = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
+    auto file = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
 
     // Pre-allocate
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
-    co_return {};
+    co_return std::move(file);
 }
 
 bool Partition::should_compact_file(const uint64_t file_id) const
@@ -216,7 +223,7 @@ std::vector<uint64_t> Partition::find_fragmented_files() const
     for (const auto& [file_id, file_stats]: stats_.data_files)
     {
         // Never compact the active file
-        if (file_id == active_file_->file_id()) continue;
+        if (file_id == active_file_id()) continue;
 
         if (file_stats.fragmentation() >= config_.fragmentation_threshold)
         {
@@ -505,7 +512,7 @@ Task<Result<void>> Partition::recover()
     }
 
     // create and set an active file
-    KIO_TRY(co_await create_and_set_active_file());
+    active_file_ = KIO_TRY(co_await create_data_file());
 
     co_return {};
 }
@@ -557,8 +564,9 @@ Task<Result<std::unique_ptr<Partition>>> Partition::open(const BitcaskConfig& co
 Task<Result<void>> Partition::seal_active_file()
 {
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_mutex_.lock();
 
-    // Check if there is an active file to seal and if it has content
+    // Check if there is an active file to seal
     if (active_file_ == nullptr)
     {
         co_return {};
@@ -566,27 +574,23 @@ Task<Result<void>> Partition::seal_active_file()
 
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
-    uint64_t actual_file_id = active_file_id();
 
-    if (active_fd > 0)
+    if (actual_size > 0)
     {
         KIO_TRY(co_await worker_.async_fsync(active_fd));
 
         KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
-
-        KIO_TRY(co_await active_file_->async_close());
     }
     else
     {
-        // close and remove as this active file was never used
-        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", actual_file_id);
-        KIO_TRY(co_await active_file_->async_close());
-        const auto path = config_.directory / std::format("partition_{}/data_{}.db", partition_id_, actual_file_id);
-        KIO_TRY(co_await worker_.async_unlink_at(active_fd, path, config_.file_mode));
+        // remove as this active file was never used
+        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", active_file_id());
+        KIO_TRY(co_await worker_.async_unlink_at(AT_FDCWD, get_data_file_path(active_file_id()), 0));
     }
 
-    // Remove pointer to prevent double-closing in dtor
-    active_file_.reset();
+    // From here on the partition is closed
+    const auto sealed = std::move(active_file_);
+    KIO_TRY(co_await sealed->async_close());
 
     co_return {};
 }
@@ -656,6 +660,7 @@ Task<Result<void>> Partition::compact()
 Task<Result<void>> Partition::sync()
 {
     co_await SwitchToWorker(worker_);
+    const auto guard = co_await write_mutex_.lock();
     if (active_file_)
     {
         KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
-- 
2.43.0


From cdb7d3696abe2bbfeb1c74fa9fbe8cc198d0afab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 31/53] fix: bitcask get survives eviction, rotation and
 compaction while it is suspended

---
 bitcask/include/fd_cache.h  |  7 +++++--
 bitcask/include/partition.h |  2 +-
 bitcask/src/fd_cache.cpp    | 28 +++++++++++++++++++---------
 bitcask/src/partition.cpp   | 33 +++++++++++++++++++++++++++------
 4 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..773235e 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -5,6 +5,7 @@
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
 #include <list>
+#include <memory>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -26,8 +27,10 @@ namespace bitcask
 
         /**
          * @brief Get FD for file_id, opening if not cached
+         *
+         * The file stays open as long as the caller keeps the handle, even if it is evicted or removed meanwhile.
          */
-        kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
         /**
          * @brief Remove file from cache (e.g., after compaction)
          */
@@ -56,7 +59,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            std::shared_ptr<const FileHandle> handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 3c2e7b8..ae95ae0 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -48,7 +48,7 @@ namespace bitcask
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..0cb3982 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -6,35 +6,45 @@
 
 namespace bitcask
 {
-    kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
+        // Open file
+        auto handle = std::make_shared<const FileHandle>(KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0)));
+
+        // Another reader may have opened the file meanwhile: keep only one
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle;
+        }
+
         // Evict if at capacity
-        if (cache_.size() >= max_open_files_)
+        while (cache_.size() >= max_open_files_ && !cache_.empty())
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
-        lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        if (max_open_files_ > 0)
+        {
+            lru_list_.push_front(file_id);
+            cache_[file_id] = CacheEntry{handle, path, lru_list_.begin()};
+        }
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 5960f62..5d1c980 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -65,18 +65,33 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     if (!active_file_) co_return std::unexpected(closed_error());
     stats_.gets_total++;
 
-    const auto it = keydir_.find(key);
+    auto it = keydir_.find(key);
     if (it == keydir_.end())
     {
         stats_.gets_miss_total++;
         co_return std::nullopt;
     }
 
-    const auto& loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+    // A copy: the keydir changes while this coroutine is suspended
+    ValueLocation loc = it->second;
+    auto handle = co_await find_fd(loc.file_id);
+    while (!handle.has_value())
+    {
+        // Compaction may have moved the entry and deleted its file before it was opened: look again
+        it = keydir_.find(key);
+        if (it == keydir_.end())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
+        if (it->second.file_id == loc.file_id) co_return std::unexpected(handle.error());
+        loc = it->second;
+        handle = co_await find_fd(loc.file_id);
+    }
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+    // the handle keeps the file open until the read is done
+    DataEntry entry = KIO_TRY(co_await async_read_entry(handle.value()->get(), loc.offset, loc.total_size));
 
     if (entry.is_tombstone())
     {
@@ -133,7 +148,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<std::shared_ptr<const FileHandle>>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_id())
@@ -147,7 +162,13 @@ Task<Result<int>> Partition::find_fd(const uint64_t file_id)
     }
 
     const auto path = get_data_file_path(file_id);
-    co_return co_await fd_cache_.get_or_open(file_id, path);
+    auto handle = co_await fd_cache_.get_or_open(file_id, path);
+    if (file_id != active_file_id() && !stats_.data_files.contains(file_id))
+    {
+        // compacted meanwhile: do not keep the deleted file open
+        fd_cache_.remove(file_id);
+    }
+    co_return handle;
 }
 
 Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
-- 
2.43.0


From 4b8e1a4c14bb3316cd2839ccca2b11a0a34489e2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 32/53] fix: bitcask file ids keep increasing across restarts
 and overflows

---
 bitcask/include/file_id.h | 16 ++++++++++++++++
 bitcask/src/partition.cpp |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..2c77ecf 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -83,7 +83,9 @@ namespace bitcask
                 if (sequence_ == 0xFFFF)
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
+                    // Borrow from the next second, an ID must never come twice.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
@@ -95,6 +97,20 @@ namespace bitcask
             return FileID{partition_id_, now, sequence_}.encode();
         }
 
+        /**
+         * @brief Continue after an ID that is already in use
+         * Keeps IDs increasing across restarts, whatever the clock says.
+         */
+        void start_after(const uint64_t used_id)
+        {
+            const auto used = FileID::decode(used_id);
+            if (used.timestamp_sec > last_timestamp_ || (used.timestamp_sec == last_timestamp_ && used.sequence > sequence_))
+            {
+                last_timestamp_ = used.timestamp_sec;
+                sequence_ = used.sequence;
+            }
+        }
+
         [[nodiscard]] uint32_t current_timestamp() const { return last_timestamp_; }
 
         [[nodiscard]] uint16_t partition_id() const { return partition_id_; }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 5d1c980..7c0909b 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -499,6 +499,8 @@ Task<Result<void>> Partition::recover()
     for (auto file_id: files)
     {
         stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
+        // new files must come after those that exist
+        file_id_gen_.start_after(file_id);
     }
 
     // Recover each file
-- 
2.43.0


From ae9b576d9daeb882afdf8064457586a42c1838c6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 33/53] fix: bitcask compacts a partition on its worker, once
 at a time

---
 bitcask/include/partition.h | 2 ++
 bitcask/src/partition.cpp   | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index ae95ae0..4c52243 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,6 +44,8 @@ namespace bitcask
 
         // Held while the active file is written, synced or replaced: entries get their place in the log one after another
         AsyncMutex write_mutex_;
+        // Held by the one compaction that runs
+        AsyncMutex compaction_mutex_;
 
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 7c0909b..79a79a3 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -292,7 +292,6 @@ DetachedTask Partition::compaction_loop()
 
         // Reset trigger
         compaction_trigger_.reset();
-        stats_.compaction_running = false;
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
@@ -641,12 +640,16 @@ Task<Result<void>> Partition::async_close()
 
 Task<Result<void>> Partition::compact()
 {
+    co_await SwitchToWorker(worker_);
+    // the background loop and the user may both ask
+    const auto guard = co_await compaction_mutex_.lock();
+    if (!active_file_) co_return std::unexpected(closed_error());
+
     auto fragmented_files = find_fragmented_files();
 
     if (fragmented_files.empty())
     {
         ALOG_DEBUG("Partition {}: no files to compact", partition_id_);
-        compaction_trigger_.reset();
         co_return {};
     }
 
@@ -676,6 +679,7 @@ Task<Result<void>> Partition::compact()
             fd_cache_.remove(src_id);
         }
     }
+    stats_.compaction_running = false;
 
     co_return {};
 }
-- 
2.43.0


From 6f87f086533ea650fc1f8ed1e332163da44a5e24 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 34/53] fix: closing a bitcask partition waits for its
 background loops and reports failures

---
 bitcask/include/partition.h |  6 ++++++
 bitcask/src/bitcask.cpp     |  9 +++++++--
 bitcask/src/partition.cpp   | 24 +++++++++++++++++++-----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4c52243..3c88462 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -41,6 +41,12 @@ namespace bitcask
         kio::sync::AsyncBaton compaction_trigger_;
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
+        // Only there to end the wait of the background sync
+        kio::sync::AsyncBaton sync_trigger_;
+        // Detached coroutines that use this partition, and who waits for them
+        size_t background_loops_{0};
+        kio::sync::AsyncBaton loops_done_;
+        AsyncMutex close_mutex_;
 
         // Held while the active file is written, synced or replaced: entries get their place in the log one after another
         AsyncMutex write_mutex_;
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 8e268b7..5b61f67 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -167,12 +167,17 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
 
 Task<Result<void>> BitKV::close() const
 {
+    // close all of them, report the first failure
+    Result<void> result;
     for (const auto& partition: partitions_)
     {
-        co_await partition->async_close();
+        if (auto res = co_await partition->async_close(); !res.has_value() && result.has_value())
+        {
+            result = std::unexpected(res.error());
+        }
     }
 
-    co_return {};
+    co_return result;
 }
 
 size_t BitKV::route_to_partition(const std::string_view key) const
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 79a79a3..24cfeac 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -11,7 +11,7 @@ namespace
 }  // namespace
 
 Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id) :
-    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker)
+    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker), sync_trigger_(worker), loops_done_(worker)
 {
     //  Recovery, compaction loop delegated to open factory method
 }
@@ -260,6 +260,7 @@ std::filesystem::path Partition::get_hint_file_path(uint64_t file_id) const { re
 
 DetachedTask Partition::compaction_loop()
 {
+    ++background_loops_;
     co_await SwitchToWorker(worker_);
 
     ALOG_INFO("Partition {} compaction loop starting", partition_id_);
@@ -295,6 +296,7 @@ DetachedTask Partition::compaction_loop()
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
+    if (--background_loops_ == 0) loops_done_.notify();
 }
 
 
@@ -619,14 +621,23 @@ Task<Result<void>> Partition::seal_active_file()
 
 Task<Result<void>> Partition::async_close()
 {
+    co_await SwitchToWorker(worker_);
     ALOG_INFO("Partition {} closing...", partition_id_);
+    const auto closing = co_await close_mutex_.lock();
 
-    // Signal shutdown to compaction loop
+    // Signal shutdown to the background loops
     shutting_down_.store(true);
 
-    // Wake up the compaction loop so it can exit cleanly
-
+    // Wake them up so they can exit cleanly, and wait for it: they use this partition
     compaction_trigger_.notify();
+    sync_trigger_.notify();
+    if (background_loops_ > 0)
+    {
+        co_await loops_done_.wait();
+    }
+
+    // Let a compaction the user asked for end
+    const auto guard = co_await compaction_mutex_.lock();
 
     // Seal the active file if it exists and hasn't been sealed by rotation
     KIO_TRY(co_await seal_active_file());
@@ -697,13 +708,15 @@ Task<Result<void>> Partition::sync()
 
 DetachedTask Partition::background_sync()
 {
+    ++background_loops_;
     co_await SwitchToWorker(worker_);
     ALOG_INFO("Partition {} background sync loop starting", partition_id_);
 
     const auto st = worker_.get_stop_token();
     while (!st.stop_requested() && !shutting_down_.load())
     {
-        co_await worker_.async_sleep(std::chrono::milliseconds(config_.sync_interval));
+        // closing ends the wait early
+        co_await sync_trigger_.wait_for(config_.sync_interval);
         // check again after wakeup
         if (shutting_down_.load())
         {
@@ -717,4 +730,5 @@ DetachedTask Partition::background_sync()
         }
     }
     ALOG_INFO("Partition {} background sync loop exiting", partition_id_);
+    if (--background_loops_ == 0) loops_done_.notify();
 }
-- 
2.43.0


From 82403f6ccf6f4abd7bc0913f54969c2c9b816016 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 35/53] fix: bitcask compaction loses nothing to restarts,
 crashes, write errors or unreadable sources

---
 bitcask/include/compactor.h |  14 +++
 bitcask/include/partition.h |   1 +
 bitcask/src/compactor.cpp   | 167 +++++++++++++++++++++++++++---------
 bitcask/src/partition.cpp   |  48 +++++++++--
 4 files changed, 181 insertions(+), 49 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index a883da1..cf9f75f 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -50,6 +50,9 @@ namespace bitcask::compactor
         uint64_t current_data_offset = 0;
         uint64_t current_hint_offset = 0;
 
+        // Source files whose live entries all are in the destination
+        std::vector<uint64_t> emptied_files;
+
         // Compaction metrics
         uint64_t entries_kept = 0;
         uint64_t entries_discarded = 0;
@@ -68,7 +71,12 @@ namespace bitcask::compactor
     };
 
     // main public apis
+    /**
+     * @brief Copies the live entries of the source files to the destination and makes them durable.
+     * The source files stay: remove_source_files() deletes them once what superseded their other entries is durable too.
+     */
     kio::Task<kio::Result<void>> compact_files(CompactionContext& ctx);
+    kio::Task<kio::Result<void>> remove_source_files(CompactionContext& ctx);
     kio::Task<kio::Result<void>> compact_one_file(CompactionContext& ctx, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
 
     // Implementation helpers
@@ -89,6 +97,9 @@ namespace bitcask::compactor
 
         kio::Task<kio::Result<void>> cleanup_source_files(const CompactionContext& ctx, uint64_t src_file_id);
 
+        /// A tombstone is still needed while an older file may hold a value of its key
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, uint64_t src_file_id);
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
 
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, uint64_t expected_file_id, uint64_t expected_offset);
@@ -96,6 +107,9 @@ namespace bitcask::compactor
         std::filesystem::path get_data_file_path(const CompactionContext& ctx, uint64_t file_id);
 
         std::filesystem::path get_hint_file_path(const CompactionContext& ctx, uint64_t file_id);
+
+        /// The hint file until it is complete
+        std::filesystem::path get_partial_hint_file_path(const CompactionContext& ctx, uint64_t file_id);
     }  // namespace detail
 }  // namespace bitcask::compactor
 #endif  // KIO_COMPACTOR_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 3c88462..79c8d8f 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -62,6 +62,7 @@ namespace bitcask
         kio::DetachedTask compaction_loop();
         // background sync job for the active file, in case sync_on_write is not set
         kio::DetachedTask background_sync();
+        kio::Task<kio::Result<void>> run_compaction(compactor::CompactionContext& ctx);
         void signal_compaction(uint64_t file_id);
         bool should_compact_file(uint64_t file_id) const;
         std::vector<uint64_t> find_fragmented_files() const;
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..cca0e19 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,7 +5,10 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <algorithm>
+#include <filesystem>
 #include <format>
+#include <ranges>
 #include <ylt/struct_pack.hpp>
 
 #include "bitcask/include/file_handle.h"
@@ -15,43 +18,81 @@ using namespace kio::io;
 
 namespace bitcask::compactor
 {
+    namespace
+    {
+        Task<Result<void>> fill_destination(CompactionContext& ctx, const int data_fd, const int hint_fd)
+        {
+            // Compact each source file, oldest first
+            std::ranges::sort(ctx.src_file_ids);
+            for (uint64_t src_file_id: ctx.src_file_ids)
+            {
+                // log error regarding one file failing
+                if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd, hint_fd); !result.has_value())
+                {
+                    ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
+                    co_return std::unexpected(result.error());
+                }
+            }
+
+            // Drop what was pre-allocated and not used
+            KIO_TRY(co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset)));
+
+            // Sync
+            KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
+            KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
+
+            co_return {};
+        }
+    }  // namespace
+
     Task<Result<void>> compact_files(CompactionContext& ctx)
     {
         ALOG_INFO("Starting N-to-1 compaction: {} files -> file {}", ctx.src_file_ids.size(), ctx.dst_file_id);
 
-        // Initialize destination file stats
-        ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
-
         // Create destination files
         const auto data_path = detail::get_data_file_path(ctx, ctx.dst_file_id);
-        const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
+        const auto hint_path = detail::get_partial_hint_file_path(ctx, ctx.dst_file_id);
 
-        const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
+        FileHandle data_handle(KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode)));
+        FileHandle hint_handle;
+        if (const auto hint_fd = co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode); hint_fd.has_value())
+        {
+            hint_handle.reset(hint_fd.value());
+        }
+        else
+        {
+            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, data_path, 0);
+            co_return std::unexpected(hint_fd.error());
+        }
 
-        FileHandle data_handle(data_fd);
-        FileHandle hint_handle(hint_fd);
+        // Initialize destination file stats
+        ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
+
+        // Pre-allocate. Not required: writing reports a full disk.
+        co_await ctx.io_worker.async_fallocate(data_handle.get(), 0, static_cast<off_t>(ctx.config.max_file_size));
 
-        // Pre-allocate
-        KIO_TRY(co_await ctx.io_worker.async_fallocate(data_fd, 0, static_cast<off_t>(ctx.config.max_file_size)));
+        auto result = co_await fill_destination(ctx, data_handle.get(), hint_handle.get());
 
-        // Compact each source file
-        for (uint64_t src_file_id: ctx.src_file_ids)
+        if (ctx.current_data_offset == 0)
         {
-            // log error regarding one file failing
-            if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd, hint_fd); !result.has_value())
-            {
-                ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
-                co_return std::unexpected(result.error());
-            }
+            // Nothing was written: no destination needed
+            ctx.stats.data_files.erase(ctx.dst_file_id);
+            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, data_path, 0);
+            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, hint_path, 0);
         }
-
-        // Final flush
-        KIO_TRY(co_await detail::commit_batch(ctx, data_fd, hint_fd));
-
-        // Sync
-        KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
-        KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
+        else if (result.has_value())
+        {
+            // Only a hint file that knows every entry may be used
+            std::error_code ec;
+            std::filesystem::rename(hint_path, detail::get_hint_file_path(ctx, ctx.dst_file_id), ec);
+            if (ec) co_await ctx.io_worker.async_unlink_at(AT_FDCWD, hint_path, 0);
+        }
+        else
+        {
+            // The entries moved so far stay where they are, their file is recovered without a hint file
+            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, hint_path, 0);
+        }
+        if (!result.has_value()) co_return std::unexpected(result.error());
 
         double reduction = ctx.bytes_read > 0 ? 100.0 * (1.0 - static_cast<double>(ctx.bytes_written) / static_cast<double>(ctx.bytes_read)) : 0.0;
 
@@ -61,6 +102,19 @@ namespace bitcask::compactor
         co_return {};
     }
 
+    Task<Result<void>> remove_source_files(CompactionContext& ctx)
+    {
+        for (const uint64_t src_file_id: ctx.emptied_files)
+        {
+            // As long as the file exists, the stats know it: tombstones of its entries must be kept
+            KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+            // Update stats: a source file is gone
+            ctx.stats.data_files.erase(src_file_id);
+            ctx.stats.files_compacted_total++;
+        }
+        co_return {};
+    }
+
     Task<Result<void>> compact_one_file(CompactionContext& ctx, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
     {
         detail::reset_batches(ctx);
@@ -70,21 +124,25 @@ namespace bitcask::compactor
 
         FileHandle src_handle(src_fd);
         ctx.bytes_read += file_size;
+        const uint64_t written_before = ctx.bytes_written;
 
         KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, dst_hint_fd, src_file_id));
 
         KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd, dst_hint_fd));
 
-        // Update stats: a source file is gone
-        if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
+        const auto& src_stats = ctx.stats.data_files[src_file_id];
+        if (src_stats.live_entries > 0)
         {
-            ctx.stats.bytes_reclaimed_total += it->second.total_bytes - it->second.live_bytes;
-            ctx.stats.data_files.erase(it);
+            // A part of the file cannot be read: keep it for the entries that are left
+            ALOG_ERROR("File {} still holds {} live entries after compaction, keeping it", src_file_id, src_stats.live_entries);
+            co_return {};
         }
 
-        ctx.stats.files_compacted_total++;
-
-        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+        if (const uint64_t written = ctx.bytes_written - written_before; src_stats.total_bytes > written)
+        {
+            ctx.stats.bytes_reclaimed_total += src_stats.total_bytes - written;
+        }
+        ctx.emptied_files.push_back(src_file_id);
 
         co_return {};
     }
@@ -140,11 +198,14 @@ namespace bitcask::compactor
                     co_return std::unexpected(Error{ErrorCategory::Application, kIoDataCorrupted});
                 }
 
-                // FIX: Check the result of parsing. If it fails, assume we hit the unsealed tail.
+                // FIX: Check the result of parsing. If parsing itself fails, assume we hit the unsealed tail.
                 auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd);
 
                 if (!parse_result.has_value())
                 {
+                    // Not being able to write what was found is a failure
+                    if (parse_result.error().category != ErrorCategory::Serialization) co_return std::unexpected(parse_result.error());
+
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
                     // or garbage tail of an unsealed file. We stop processing this file but DO NOT return an error.
                     // This allows the compaction to proceed with the valid entries we've found so far.
@@ -194,6 +255,17 @@ namespace bitcask::compactor
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
         {
+            if (is_needed_tombstone(ctx, data_entry, src_file_id))
+            {
+                ctx.entries_kept++;
+                // in a hint file, a size of 0 stands for a tombstone
+                const HintEntry hint{data_entry.timestamp_ns, ctx.current_data_offset + ctx.data_batch.size(), 0, std::string(data_entry.key)};
+                const auto raw_tombstone = readable_data.subspan(0, decoded_size);
+                ctx.data_batch.insert(ctx.data_batch.end(), raw_tombstone.begin(), raw_tombstone.end());
+                struct_pack::serialize_to(ctx.hint_batch, hint);
+                return;
+            }
+
             if (!is_live_entry(ctx, data_entry, entry_offset, src_file_id))
             {
                 ctx.entries_discarded++;
@@ -217,23 +289,25 @@ namespace bitcask::compactor
         {
             if (ctx.data_batch.empty()) co_return {};
 
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_data_fd, std::span(ctx.data_batch)));
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_data_fd, std::span(ctx.data_batch), ctx.current_data_offset));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_hint_fd, std::span(ctx.hint_batch), ctx.current_hint_offset));
 
             ctx.bytes_written += ctx.data_batch.size();
 
             auto& dst_stats = ctx.stats.data_files[ctx.dst_file_id];
             dst_stats.total_bytes += ctx.data_batch.size();
-            dst_stats.live_bytes += ctx.data_batch.size();
-            dst_stats.live_entries += ctx.keydir_batch.size();
 
-            // Update KeyDir with CAS, adjust stats if CAS fails
+            // Update KeyDir with CAS and move what it refers to from the source's stats to the destination's
             for (const auto& update: ctx.keydir_batch)
             {
-                if (!update_keydir_if_matches(ctx, update.key, update.new_loc, update.expected_file_id, update.expected_offset))
+                if (update_keydir_if_matches(ctx, update.key, update.new_loc, update.expected_file_id, update.expected_offset))
                 {
-                    dst_stats.live_bytes -= update.new_loc.total_size;
-                    dst_stats.live_entries--;
+                    dst_stats.live_bytes += update.new_loc.total_size;
+                    dst_stats.live_entries++;
+
+                    auto& src_stats = ctx.stats.data_files[update.expected_file_id];
+                    src_stats.live_bytes -= update.new_loc.total_size;
+                    src_stats.live_entries--;
                 }
             }
 
@@ -258,11 +332,18 @@ namespace bitcask::compactor
 
         Task<Result<void>> cleanup_source_files(const CompactionContext& ctx, const uint64_t src_file_id)
         {
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0);
             co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_hint_file_path(ctx, src_file_id), 0);
+            KIO_TRY(co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0));
             co_return {};
         }
 
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, const uint64_t src_file_id)
+        {
+            if (!entry.is_tombstone() || ctx.keydir.contains(entry.key)) return false;
+
+            return std::ranges::any_of(ctx.stats.data_files, [src_file_id](const auto& file) { return file.first < src_file_id; });
+        }
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, const uint64_t old_offset, const uint64_t old_file_id)
         {
             const auto it = ctx.keydir.find(entry.key);
@@ -285,6 +366,8 @@ namespace bitcask::compactor
         std::filesystem::path get_data_file_path(const CompactionContext& ctx, uint64_t file_id) { return ctx.config.directory / std::format("partition_{}/data_{}.db", ctx.partition_id, file_id); }
 
         std::filesystem::path get_hint_file_path(const CompactionContext& ctx, uint64_t file_id) { return ctx.config.directory / std::format("partition_{}/hint_{}.ht", ctx.partition_id, file_id); }
+
+        std::filesystem::path get_partial_hint_file_path(const CompactionContext& ctx, uint64_t file_id) { return ctx.config.directory / std::format("partition_{}/hint_{}.partial", ctx.partition_id, file_id); }
     }  // namespace detail
 
 }  // namespace bitcask::compactor
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 24cfeac..e344977 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -188,6 +188,7 @@ Task<Result<void>> Partition::rotate_active_file()
     // Get the actual written size before flushing and closing
     const uint64_t actual_size = active_file_->size();
     const int active_fd = active_file_->handle().get();
+    const uint64_t active_id = active_file_id();
 
     // Flush
     KIO_TRY(co_await worker_.async_fsync(active_fd));
@@ -204,6 +205,12 @@ Task<Result<void>> Partition::rotate_active_file()
     // No need to add to FD cache as it will be done when needed
     KIO_TRY(co_await next->async_close());
 
+    // No need to keep a file that was never used
+    if (actual_size == 0)
+    {
+        KIO_TRY(co_await worker_.async_unlink_at(AT_FDCWD, get_data_file_path(active_id), 0));
+    }
+
     co_return {};
 }
 
@@ -375,7 +382,15 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
         const auto& entry = res.value();
         const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
 
-        keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        if (entry.total_sz == 0)
+        {
+            // a tombstone
+            keydir_.erase(entry.key);
+        }
+        else
+        {
+            keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        }
         buf_span = buf_span.subspan(bytes_this_entry);
     }
 
@@ -674,7 +689,8 @@ Task<Result<void>> Partition::compact()
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
 
-    if (auto result = co_await compactor::compact_files(ctx); !result.has_value())
+    const auto result = co_await run_compaction(ctx);
+    if (!result.has_value())
     {
         ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, result.error());
         stats_.compactions_failed++;
@@ -683,15 +699,33 @@ Task<Result<void>> Partition::compact()
     {
         ALOG_INFO("Partition {}: compaction succeeded", partition_id_);
         stats_.compactions_total++;
+    }
 
-        // Remove compacted files from FD cache
-        for (const uint64_t src_id: ctx.src_file_ids)
-        {
-            fd_cache_.remove(src_id);
-        }
+    // Remove deleted files from FD cache
+    for (const uint64_t src_id: ctx.src_file_ids)
+    {
+        if (!stats_.data_files.contains(src_id)) fd_cache_.remove(src_id);
     }
     stats_.compaction_running = false;
 
+    co_return result;
+}
+
+Task<Result<void>> Partition::run_compaction(compactor::CompactionContext& ctx)
+{
+    {
+        // Recovery reads files in the order of their IDs: what is written from now on has to come after the destination
+        const auto guard = co_await write_mutex_.lock();
+        KIO_TRY(co_await rotate_active_file());
+    }
+
+    KIO_TRY(co_await compactor::compact_files(ctx));
+
+    // Entries were dropped because newer ones exist, which must not be lost from now on
+    KIO_TRY(co_await sync());
+
+    KIO_TRY(co_await compactor::remove_source_files(ctx));
+
     co_return {};
 }
 
-- 
2.43.0


From 67373709fff99da684134aa73f1c4dd87cfe15c1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 36/53] fix: a damaged size in a bitcask entry does not
 overflow the bounds check

---
 bitcask/src/entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..b73707a 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,7 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        if (buffer.size() - kEntryFixedHeaderSize < size)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From 3ac9a0b96a5181da598e2074c8e94c4999ddd934 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 37/53] fix: bitcask get does not return the value of another
 key after damage to a hint file

---
 bitcask/src/partition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index e344977..2e2f3c8 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -93,6 +93,9 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     // the handle keeps the file open until the read is done
     DataEntry entry = KIO_TRY(co_await async_read_entry(handle.value()->get(), loc.offset, loc.total_size));
 
+    // the location may come from a damaged hint file
+    if (entry.key != key) co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+
     if (entry.is_tombstone())
     {
         stats_.gets_miss_total++;
-- 
2.43.0


From 215d255b4dfa52b6bf929b4960b10e2aed28b2bf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 38/53] fix: bitcask does not trust hint entries that lie
 outside of their data file

---
 bitcask/src/partition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 2e2f3c8..b2e7eac 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -372,6 +372,7 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
     }
 
     std::span buf_span(buf);
+    const uint64_t data_size = stats_.data_files[file_id].total_bytes;
 
     while (!buf_span.empty())
     {
@@ -385,6 +386,12 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
         const auto& entry = res.value();
         const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
 
+        if (entry.total_sz > data_size || entry.entry_pos > data_size - entry.total_sz)
+        {
+            ALOG_ERROR("Hint file {} refers to bytes its data file does not have", file_id);
+            co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+        }
+
         if (entry.total_sz == 0)
         {
             // a tombstone
-- 
2.43.0


From e874aab77f4cb807f9d30df6c753a4a4c35e2b54 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 39/53] fix: bitcask creates its MANIFEST atomically

---
 bitcask/src/bitcask.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 5b61f67..e67feeb 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -1,8 +1,10 @@
 #include <bitcask/include/bitcask.h>
 #include <cstdlib>
+#include <fcntl.h>
 #include <filesystem>
 #include <fstream>
 #include <mutex>
+#include <unistd.h>
 
 #include "crc32c/crc32c.h"
 
@@ -125,15 +127,26 @@ void BitKV::check_or_create_manifest() const
         manifest.partition_count = static_cast<uint32_t>(partition_count_);
         auto data = struct_pack::serialize(manifest);
 
-        std::ofstream file(manifest_path, std::ios::binary);
-        file.write(data.data(), static_cast<int>(data.size()));
-        file.close();
+        // Written aside, then renamed: a crash must not leave a part of a manifest, which no later open would accept
+        const auto temp_path = db_config_.directory / std::format("{}.tmp", kManifestFileName);
+        const FileHandle file(::open(temp_path.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, db_config_.file_mode));
+        size_t written = 0;
+        while (file.is_valid() && written < data.size())
+        {
+            const auto n = ::write(file.get(), data.data() + written, data.size() - written);
+            if (n <= 0)
+            {
+                break;
+            }
+            written += static_cast<size_t>(n);
+        }
 
-        if (!file.good())
+        if (written != data.size() || ::fsync(file.get()) != 0)
         {
             ALOG_ERROR("Failed to write MANIFEST");
             throw std::runtime_error("Failed to write MANIFEST");
         }
+        std::filesystem::rename(temp_path, manifest_path);
     }
 }
 
-- 
2.43.0


From 1bfac6cfa23bfd984e9f84f02a0b01fbd49fbe85 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 40/53] fix: opening a bitcask database does not hang when a
 worker fails

---
 bitcask/include/bitcask.h |  2 +-
 bitcask/src/bitcask.cpp   | 38 ++++++++++++++++++++++++++------------
 kio/core/worker.cpp       |  1 +
 kio/core/worker.h         |  3 +++
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/bitcask/include/bitcask.h b/bitcask/include/bitcask.h
index 6e2a281..f7315b5 100644
--- a/bitcask/include/bitcask.h
+++ b/bitcask/include/bitcask.h
@@ -131,7 +131,7 @@ namespace bitcask
         // INITIALIZATION & RECOVERY
         // ====================================================================
 
-        static kio::DetachedTask initialize_partition(BitKV& db, kio::io::Worker&, InitState& state);
+        static kio::DetachedTask initialize_partition(BitKV& db, kio::io::Worker&, std::shared_ptr<InitState> state);
 
         /**
          * @brief Ensure directory structure exists
diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index e67feeb..e3d7829 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -4,6 +4,7 @@
 #include <filesystem>
 #include <fstream>
 #include <mutex>
+#include <thread>
 #include <unistd.h>
 
 #include "crc32c/crc32c.h"
@@ -35,16 +36,29 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
         co_return std::unexpected(Error{ErrorCategory::Application, 1001});  // Generic error code for init fail
     }
 
-    InitState state(partition_count);
+    const auto state = std::make_shared<InitState>(partition_count);
 
-    auto io_pool = std::make_unique<IOPool>(partition_count, io_config, [db_ptr = db.get(), &state](Worker& worker) { initialize_partition(*db_ptr, worker, state).detach(); });
+    auto io_pool = std::make_unique<IOPool>(partition_count, io_config, [db_ptr = db.get(), state](Worker& worker) { initialize_partition(*db_ptr, worker, state).detach(); });
 
-    state.latch.wait();
+    while (!state->latch.try_wait())
+    {
+        // a worker that failed never opens its partition
+        for (size_t i = 0; i < partition_count; ++i)
+        {
+            if (io_pool->get_worker(i)->has_failed())
+            {
+                ALOG_ERROR("Worker {} failed while its partition was being opened", i);
+                io_pool->stop();
+                co_return std::unexpected(Error{ErrorCategory::Application, kAppUnknown});
+            }
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+    }
 
-    if (state.has_error)
+    if (state->has_error)
     {
         io_pool->stop();
-        co_return std::unexpected(state.first_error.value());
+        co_return std::unexpected(state->first_error.value());
     }
 
     ALOG_INFO("All {} partitions initialized successfully", partition_count);
@@ -151,7 +165,7 @@ void BitKV::check_or_create_manifest() const
 }
 
 
-DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& state)
+DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, const std::shared_ptr<InitState> state)
 {
     size_t current_id = worker.get_id();
     auto res = co_await Partition::open(db.db_config_, worker, current_id);
@@ -160,22 +174,22 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
     {
         ALOG_ERROR("Partition open failed, partition_id={}", current_id);
         // the detached task does not propagate errors or exception, so store the state
-        state.has_error.store(true);
+        state->has_error.store(true);
         {
-            std::lock_guard lock(state.error_mutex);
-            if (!state.first_error)
+            std::lock_guard lock(state->error_mutex);
+            if (!state->first_error)
             {
-                state.first_error = res.error();
+                state->first_error = res.error();
             }
         }
 
         // Still count down!
-        state.latch.count_down();
+        state->latch.count_down();
         co_return;
     }
 
     db.partitions_[current_id] = std::move(res.value());
-    state.latch.count_down();
+    state->latch.count_down();
 }
 
 Task<Result<void>> BitKV::close() const
diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 5fe9568..c13a776 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -233,6 +233,7 @@ namespace kio::io
         catch (const std::exception &e)
         {
             ALOG_ERROR("Worker {} failed during run(): {}", id_, e.what());
+            failed_.store(true, std::memory_order_release);
             // ensure latches are released so the pool doesn't wait forever, but never twice: a latch below zero blocks
             if (!init_latch_.try_wait()) signal_init_complete();
             if (!shutdown_latch_.try_wait()) signal_shutdown_complete();
diff --git a/kio/core/worker.h b/kio/core/worker.h
index 56e24ce..8e74986 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -164,6 +164,7 @@ namespace kio::io
         std::stop_token stop_token_;
         // to avoid a double shutdown
         std::atomic<bool> stopped_{false};
+        std::atomic<bool> failed_{false};
         WorkerStats stats_{};
 
         std::function<void(Worker&)> worker_init_callback_;
@@ -236,6 +237,8 @@ namespace kio::io
          * @brief Tells whether this worker is running
          * @return a bool stating the state of the worker
          */
+        /// Whether the event loop ended because of an error, or never started for that reason
+        [[nodiscard]] bool has_failed() const noexcept { return failed_.load(std::memory_order_acquire); }
         [[nodiscard]] bool is_running() const noexcept { return stopped_.load(std::memory_order_acquire) == false; }
 
         //
-- 
2.43.0


From 456de226b4b0b71d7a0af7262be465b78a30028e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 41/53] fix: bitcask syncs the files it recovers, so that what
 it serves does not vanish

---
 bitcask/src/partition.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index b2e7eac..d6fab94 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -549,6 +549,8 @@ Task<Result<void>> Partition::recover()
             // TODO: add a flag for the user to decide what to do in such cases
             ALOG_ERROR("Failed to recover from data file {}, skipping the rest of entries", file_id);
         }
+        // The process that wrote it may have been killed before it synced: what is served from now on must not vanish
+        KIO_TRY(co_await worker_.async_fsync(fd));
         ALOG_DEBUG("Recovered from data file {}", file_id);
     }
 
-- 
2.43.0


From ab60968d73b25daa5053ae02df13e9515699142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 42/53] fix: bitcask compaction does not remove sources whose
 entries moved to a file it could not sync

---
 bitcask/include/stats.h   |  1 +
 bitcask/src/compactor.cpp | 14 +++++++++++++-
 bitcask/src/partition.cpp |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bitcask/include/stats.h b/bitcask/include/stats.h
index 64a42b6..6fecf25 100644
--- a/bitcask/include/stats.h
+++ b/bitcask/include/stats.h
@@ -17,6 +17,7 @@ namespace bitcask
             uint64_t total_bytes{0};
             uint64_t live_bytes{0};
             uint64_t live_entries{0};
+            bool unsynced{false};  // left by a failed compaction, which could not make it durable
 
             [[nodiscard]] double fragmentation() const { return total_bytes > 0 ? 1.0 - static_cast<double>(live_bytes) / static_cast<double>(total_bytes) : 0.0; }
 
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index cca0e19..4219b23 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -89,7 +89,9 @@ namespace bitcask::compactor
         }
         else
         {
-            // The entries moved so far stay where they are, their file is recovered without a hint file
+            // The entries moved so far stay where they are, their file is recovered without a hint file.
+            // The next compaction writes them again before it removes the files they came from.
+            ctx.stats.data_files[ctx.dst_file_id].unsynced = true;
             co_await ctx.io_worker.async_unlink_at(AT_FDCWD, hint_path, 0);
         }
         if (!result.has_value()) co_return std::unexpected(result.error());
@@ -104,6 +106,16 @@ namespace bitcask::compactor
 
     Task<Result<void>> remove_source_files(CompactionContext& ctx)
     {
+        // What an earlier compaction took from these files may be in one that is not durable
+        for (const auto& [file_id, file_stats]: ctx.stats.data_files)
+        {
+            if (file_stats.unsynced && !std::ranges::contains(ctx.emptied_files, file_id))
+            {
+                ALOG_ERROR("File {} is not durable, keeping the files its entries came from", file_id);
+                co_return std::unexpected(Error{ErrorCategory::Application, kIoDataCorrupted});
+            }
+        }
+
         for (const uint64_t src_file_id: ctx.emptied_files)
         {
             // As long as the file exists, the stats know it: tombstones of its entries must be kept
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index d6fab94..1101d3f 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -256,7 +256,7 @@ std::vector<uint64_t> Partition::find_fragmented_files() const
         // Never compact the active file
         if (file_id == active_file_id()) continue;
 
-        if (file_stats.fragmentation() >= config_.fragmentation_threshold)
+        if (file_stats.unsynced || file_stats.fragmentation() >= config_.fragmentation_threshold)
         {
             result.push_back(file_id);
         }
-- 
2.43.0


From 5c1717d9780ec7e5d15ffb59f4664251297268bc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 43/53] fix: TLS handshakes of accepted connections do not
 block the worker

---
 kio/tls/listener.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kio/tls/listener.cpp b/kio/tls/listener.cpp
index d14e5db..76924dc 100644
--- a/kio/tls/listener.cpp
+++ b/kio/tls/listener.cpp
@@ -4,6 +4,7 @@
 
 #include "listener.h"
 
+#include <fcntl.h>
 #include <netinet/tcp.h>
 
 #include "kio/net/net.h"
@@ -66,6 +67,13 @@ namespace kio::tls
         // TODO: use the config
         setsockopt(client_fd, IPPROTO_TCP, TCP_NODELAY, &opt, sizeof(opt));
 
+        // OpenSSL drives the handshake and the shutdown on this descriptor: it must return WANT_READ/WANT_WRITE
+        // instead of blocking the worker while the peer is silent.
+        if (const int flags = ::fcntl(client_fd, F_GETFL, 0); flags < 0 || ::fcntl(client_fd, F_SETFL, flags | O_NONBLOCK) < 0)
+        {
+            co_return std::unexpected(Error::from_errno(errno));
+        }
+
         // Create Stream using the Listener's context
         TlsStream stream(worker_, std::move(client), ctx_, TlsRole::Server);
         KIO_TRY(co_await stream.async_handshake());
-- 
2.43.0


From e21d51862483904f43f97f0f82e069b43dd949a2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 44/53] fix: moving a TlsStream keeps its peer address

---
 kio/tls/stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..9346f4f 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -35,6 +35,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
+        peer_addr_(std::move(other.peer_addr_)),
         handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
-- 
2.43.0


From a190ed8c204ffea1986643fb502e1741d42a5a96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 45/53] fix: a TLS handshake without kernel TLS, or cut short
 by a stop, is not reported as done

---
 kio/tls/stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 9346f4f..ebb6842 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -82,7 +82,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        // The worker stops before the handshake is done
+        co_return std::unexpected(Error::from_errno(ECANCELED));
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
@@ -98,7 +99,6 @@ namespace kio::tls
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
         KIO_TRY(co_await do_handshake_step());
-        handshake_done_ = true;
         ALOG_DEBUG("TLS handshake completed");
 
         if (const char* ver = SSL_get_version(ssl_))
@@ -110,7 +110,9 @@ namespace kio::tls
             ALOG_DEBUG("SSL cipher is {}", cipher);
         }
 
+        // Reads and writes bypass OpenSSL: without KTLS the stream is not usable.
         KIO_TRY(enable_ktls());
+        handshake_done_ = true;
 
         co_return {};
     }
-- 
2.43.0


From 67f20f933ee57e79d9654c5cd6b677fb3fe1ef9a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 46/53] fix: reading a TLS stream that its peer closed reports
 the end instead of EIO

---
 kio/tls/stream.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ebb6842..e5130cd 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -5,6 +5,9 @@
 
 #include "context.h"
 
+#include <algorithm>
+#include <climits>
+
 namespace kio::tls
 {
     // Helper coroutine: used ONLY when we have buffered OpenSSL data.
@@ -15,6 +18,26 @@ namespace kio::tls
         co_return result;
     }
 
+    // The kernel fails a plain read with EIO when the next record is not application data (an alert, a session ticket).
+    // OpenSSL reads and handles that record: a close_notify is the end of the stream.
+    static Task<Result<int>> ktls_read_task(io::Worker& worker, SSL* ssl, const int fd, const std::span<char> buf)
+    {
+        auto res = co_await worker.async_read(fd, buf);
+        while (!res && ssl != nullptr && res.error().value == EIO)
+        {
+            ERR_clear_error();
+            const int n = SSL_read(ssl, buf.data(), static_cast<int>(std::min<size_t>(buf.size(), INT_MAX)));
+            if (n > 0) co_return n;
+
+            const int err = SSL_get_error(ssl, n);
+            if (err == SSL_ERROR_ZERO_RETURN) co_return 0;
+            if (err != SSL_ERROR_WANT_READ) break;
+
+            res = co_await worker.async_read(fd, buf);
+        }
+        co_return res;
+    }
+
     TlsStream::TlsStream(io::Worker& worker, net::Socket socket, TlsContext& context, const TlsRole role) : worker_(worker), ctx_(context), socket_(std::move(socket)), role_(role)
     {
         ssl_ = SSL_new(ctx_.get());
@@ -158,7 +181,13 @@ namespace kio::tls
             }
         }
 
-        return worker_.async_read(socket_.get(), buf);
+        // The peer's close_notify was read: nothing follows
+        if (ssl_ && (SSL_get_shutdown(ssl_) & SSL_RECEIVED_SHUTDOWN) != 0)
+        {
+            return buffered_read_task(0);
+        }
+
+        return ktls_read_task(worker_, ssl_, socket_.get(), buf);
     }
 
     Task<Result<int>> TlsStream::async_write(std::span<const char> buf)
-- 
2.43.0


From edd416d7e516f15504ce6495d42361d5ee6ed10f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 47/53] fix: TLS shutdown is not mistaken for failed because of
 earlier errors of the thread

---
 kio/tls/stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index e5130cd..e640444 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -208,6 +208,8 @@ namespace kio::tls
 
         while (!st.stop_requested() && iterations++ < kMaxShutdownIterations)
         {
+            // SSL_get_error() looks at this thread's error queue: entries of other connections must not be taken for ours
+            ERR_clear_error();
             const int ret = SSL_shutdown(ssl_);
 
             if (ret == 1)
-- 
2.43.0


From 8ada77dc8d84cbc493e7d2cf7322c475902c3cfa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 48/53] fix: sendfile to a non-blocking socket or pipe waits
 for room instead of failing with EAGAIN

---
 kio/core/worker.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index c13a776..6878806 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -6,6 +6,7 @@
 #include <fcntl.h>
 #include <chrono>
 #include <liburing.h>
+#include <poll.h>
 #include <sys/eventfd.h>
 #include <sys/utsname.h>
 
@@ -672,6 +673,12 @@ Task<Result<void>> Worker::async_sendfile(int out_fd, int in_fd, off_t offset, s
                                                         out_fd, -1,
                                                         pipe_remaining);
 
+            // A non-blocking output (the sockets create_tcp_fd() makes) which is full: the splice does not wait for room
+            if (res_out == -EAGAIN)
+            {
+                KIO_TRY(co_await async_poll(out_fd, POLLOUT));
+                continue;
+            }
             if (res_out < 0) co_return std::unexpected(Error::from_errno(-res_out));
             if (res_out == 0) co_return std::unexpected(Error{ErrorCategory::Network, EPIPE});
 
-- 
2.43.0


From 7d6c0fb896c5ded261ab352fd35c995bb04d5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:16 +0000
Subject: [PATCH 49/53] fix: opening a bitcask store whose directory cannot be
 listed fails instead of waiting forever

---
 bitcask/src/bitcask.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index e3d7829..0442874 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -168,7 +168,16 @@ void BitKV::check_or_create_manifest() const
 DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, const std::shared_ptr<InitState> state)
 {
     size_t current_id = worker.get_id();
-    auto res = co_await Partition::open(db.db_config_, worker, current_id);
+    // An exception, e.g. when the directory cannot be listed, is a failure to open like any other: nobody else would count down
+    Result<std::unique_ptr<Partition>> res = std::unexpected(Error{ErrorCategory::Application, kAppUnknown});
+    try
+    {
+        res = co_await Partition::open(db.db_config_, worker, current_id);
+    }
+    catch (const std::exception& e)
+    {
+        ALOG_ERROR("Partition open threw: {}", e.what());
+    }
 
     if (!res)
     {
-- 
2.43.0


From 5d1eed82e2454a0abb99d985d84956e050545940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 50/53] fix: a timed wait whose timer cannot be armed gives the
 worker its turn

Timing out at once without leaving the coroutine lets a loop that waits again
keep the worker from submitting and completing what left no room for the timer.
---
 kio/sync/baton.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index ca5854f..3dea5d9 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -146,8 +146,13 @@ namespace kio::sync
 
                     run_timer(baton.owner_, wait, duration).detach();
 
-                    // The timer could not be started: immediate timeout.
-                    if (wait->timed_out) return false;
+                    // The timer could not be started: timed out at once. But not without giving the worker its turn:
+                    // a loop that waits again would keep it from getting rid of what left no room for the timer.
+                    if (wait->timed_out)
+                    {
+                        io::internal::WorkerAccess::post(baton.owner_, h);
+                        return true;
+                    }
 
                     wait->waiter = h;
                     return true;
-- 
2.43.0


From e96312a96fa96157a65b8adc3fdcf2edfaac819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 51/53] fix: a data file whose close could not be submitted
 does not leak its descriptor

---
 bitcask/src/data_file.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/data_file.cpp b/bitcask/src/data_file.cpp
index 453a90a..c66d329 100644
--- a/bitcask/src/data_file.cpp
+++ b/bitcask/src/data_file.cpp
@@ -4,6 +4,8 @@
 
 #include "bitcask/include/data_file.h"
 
+#include <cerrno>
+
 #include "bitcask/include/entry.h"
 
 using namespace kio;
@@ -25,8 +27,13 @@ namespace bitcask
             // We can use async_close from worker if we release ownership from a handle first
             // to avoid double close or just rely on handle destructor (sync close).
             // Given the requirement for async_close, we release the FD.
-            const int fd = handle_.release();
-            KIO_TRY(co_await io_worker_.async_close(fd));
+            // Only once it was submitted, though: otherwise the handle still has to close it.
+            const auto res = co_await io_worker_.async_close(handle_.get());
+            if (res.has_value() || res.error().value != EAGAIN)
+            {
+                handle_.release();
+            }
+            KIO_TRY(res);
         }
         co_return {};
     }
-- 
2.43.0


From dc07b9730631ff1902f4e20a84ab2fd46930cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 52/53] fix: bitcask background loops survive or report an
 operation that throws

When the worker has no slot left for an operation, the exception ended the loop
and closing the partition waited for it forever. A compaction that ended so left
its destination marked as durable.
---
 bitcask/include/partition.h | 12 ++++++++++++
 bitcask/src/compactor.cpp   | 12 +++++++++++-
 bitcask/src/partition.cpp   | 32 ++++++++++++++++++++++++--------
 3 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 79c8d8f..98ae6a4 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -45,6 +45,18 @@ namespace bitcask
         kio::sync::AsyncBaton sync_trigger_;
         // Detached coroutines that use this partition, and who waits for them
         size_t background_loops_{0};
+        // One of them runs, however it ends
+        struct LoopGuard
+        {
+            Partition& partition;
+            explicit LoopGuard(Partition& p) : partition(p) { ++partition.background_loops_; }
+            ~LoopGuard()
+            {
+                if (--partition.background_loops_ == 0) partition.loops_done_.notify();
+            }
+            LoopGuard(const LoopGuard&) = delete;
+            LoopGuard& operator=(const LoopGuard&) = delete;
+        };
         kio::sync::AsyncBaton loops_done_;
         AsyncMutex close_mutex_;
 
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 4219b23..82d75b3 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -71,7 +71,17 @@ namespace bitcask::compactor
         // Pre-allocate. Not required: writing reports a full disk.
         co_await ctx.io_worker.async_fallocate(data_handle.get(), 0, static_cast<off_t>(ctx.config.max_file_size));
 
-        auto result = co_await fill_destination(ctx, data_handle.get(), hint_handle.get());
+        // An exception, e.g. when the worker has no slot left for an operation, is a failure like any other
+        Result<void> result;
+        try
+        {
+            result = co_await fill_destination(ctx, data_handle.get(), hint_handle.get());
+        }
+        catch (const std::exception& e)
+        {
+            ALOG_ERROR("Compaction threw: {}", e.what());
+            result = std::unexpected(Error{ErrorCategory::Application, kAppUnknown});
+        }
 
         if (ctx.current_data_offset == 0)
         {
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 1101d3f..918d100 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -270,7 +270,7 @@ std::filesystem::path Partition::get_hint_file_path(uint64_t file_id) const { re
 
 DetachedTask Partition::compaction_loop()
 {
-    ++background_loops_;
+    const LoopGuard running(*this);
     co_await SwitchToWorker(worker_);
 
     ALOG_INFO("Partition {} compaction loop starting", partition_id_);
@@ -306,7 +306,6 @@ DetachedTask Partition::compaction_loop()
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
-    if (--background_loops_ == 0) loops_done_.notify();
 }
 
 
@@ -701,7 +700,17 @@ Task<Result<void>> Partition::compact()
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
 
-    const auto result = co_await run_compaction(ctx);
+    // An exception, e.g. when the worker has no slot left for an operation, is a failure like any other
+    Result<void> result;
+    try
+    {
+        result = co_await run_compaction(ctx);
+    }
+    catch (const std::exception& e)
+    {
+        ALOG_ERROR("Partition {}: compaction threw: {}", partition_id_, e.what());
+        result = std::unexpected(Error{ErrorCategory::Application, kAppUnknown});
+    }
     if (!result.has_value())
     {
         ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, result.error());
@@ -754,7 +763,7 @@ Task<Result<void>> Partition::sync()
 
 DetachedTask Partition::background_sync()
 {
-    ++background_loops_;
+    const LoopGuard running(*this);
     co_await SwitchToWorker(worker_);
     ALOG_INFO("Partition {} background sync loop starting", partition_id_);
 
@@ -769,12 +778,19 @@ DetachedTask Partition::background_sync()
             break;
         }
 
-        if (auto res = co_await sync(); !res.has_value())
+        try
+        {
+            if (auto res = co_await sync(); !res.has_value())
+            {
+                ALOG_ERROR("Partition {}: failed to sync: {}", partition_id_, res.error());
+                // do not exit
+            }
+        }
+        catch (const std::exception& e)
         {
-            ALOG_ERROR("Partition {}: failed to sync: {}", partition_id_, res.error());
-            // do not exit
+            ALOG_ERROR("Partition {}: failed to sync: {}", partition_id_, e.what());
+            // do not exit either
         }
     }
     ALOG_INFO("Partition {} background sync loop exiting", partition_id_);
-    if (--background_loops_ == 0) loops_done_.notify();
 }
-- 
2.43.0


From 4257e3a74fac930619583c91e6a2eb8c0e2cc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:26 +0000
Subject: [PATCH 53/53] fix: closing a TLS stream while the submission queue is
 full does not leak its socket

---
 kio/tls/stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index e640444..63dae86 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -263,7 +263,12 @@ namespace kio::tls
 
         if (socket_.is_valid())
         {
-            co_await worker_.async_close(socket_.release());
+            // If closing cannot even be submitted, the socket is closed here and now
+            auto socket = std::move(socket_);
+            if (const auto res = co_await worker_.async_close(socket.get()); res.has_value() || res.error().value != EAGAIN)
+            {
+                socket.release();
+            }
         }
         co_return {};
     }
-- 
2.43.0

