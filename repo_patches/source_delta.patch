From 2178d66d50536096abe8ec2bc6aebca4dc5c4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:54 +0000
Subject: [PATCH 01/23] fix: mutex::lock could miss an unlock and block forever

A thread that found the mutex taken registered for the wakeup only after
checking. An unlock in between notified nobody and the thread kept waiting
for a mutex that was free. Checking and registering are now one step with
respect to unlock.
---
 threadpp/mutex.hpp | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..f7b4618 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "detail/semaphore.h"
+#include <system_error>
 
 namespace tpp
 {
@@ -24,6 +25,7 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
+        std::unique_lock<std::mutex> guard(guard_);
         while(flag_.test_and_set())
         {
             // are we already owning it?
@@ -31,7 +33,26 @@ public:
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+
+            // the guard is released only after we are registered as a waiter
+            // so that an unlock in between cannot be missed
+            sync_.wait(
+                [&guard]()
+                {
+                    guard.unlock();
+                },
+                [&guard]()
+                {
+                    guard.lock();
+                });
+
+            // the wait does not block in this case, so let the owner progress
+            if(this_thread::notified_for_exit())
+            {
+                guard.unlock();
+                std::this_thread::yield();
+                guard.lock();
+            }
         }
 
         owner_ = id;
@@ -43,6 +64,7 @@ public:
     //-----------------------------------------------------------------------------
     auto try_lock() -> bool
     {
+        std::lock_guard<std::mutex> guard(guard_);
         if(flag_.test_and_set())
         {
             return false;
@@ -61,14 +83,17 @@ public:
     {
         auto id = this_thread::get_id();
 
-        // did we already release it.
-        if(owner_ != id)
         {
-            throw std::system_error(std::make_error_code(std::errc::no_lock_available));
-        }
+            std::lock_guard<std::mutex> guard(guard_);
+            // did we already release it.
+            if(owner_ != id)
+            {
+                throw std::system_error(std::make_error_code(std::errc::no_lock_available));
+            }
 
-        owner_ = invalid_id();
-        flag_.clear();
+            owner_ = invalid_id();
+            flag_.clear();
+        }
         sync_.notify_all();
     }
 
@@ -76,6 +101,8 @@ private:
     /// Underlying semaphore that handles notifying.
     detail::semaphore sync_;
 
+    /// Makes taking/releasing the mutex atomic with respect to registering for waiting.
+    std::mutex guard_;
     std::atomic<thread::id> owner_{invalid_id()};
     std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
 };
-- 
2.43.0


From 591fa847fefdc9acce2a2a862605e188b39d3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:26 +0000
Subject: [PATCH 02/23] fix: nested wait dropped the registration of the outer
 wait

A thread that waits on a condition variable, future or mutex can serve a
task that waits on the same object. When that inner wait ended, for
example by timeout, it removed the entry of the outer wait as well and the
outer wait was never notified again. Only the wait that added the entry
removes it now.
---
 threadpp/detail/semaphore.cpp | 27 +++++++++++++++++++--------
 threadpp/detail/semaphore.h   |  9 +++++++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..5d4670f 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -77,7 +77,8 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -99,7 +100,11 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
         }
     }
 
-    remove_waiter(id);
+    // a nested wait must not remove the entry of the outer one
+    if(added)
+    {
+        remove_waiter(token);
+    }
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -116,7 +121,8 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -148,12 +154,16 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     }
 
     // remove waiter in case of timeout
-    remove_waiter(id);
+    // a nested wait must not remove the entry of the outer one
+    if(added)
+    {
+        remove_waiter(token);
+    }
 
     return status;
 }
 
-auto semaphore::add_waiter(thread::id id) const -> interrupt_token
+auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -172,18 +182,19 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     info.id = id;
     info.token = interrupt_token{false};
     waiters_.emplace_back(std::move(info));
+    added = true;
     return waiters_.back().token;
 }
 
-void semaphore::remove_waiter(thread::id id) const
+void semaphore::remove_waiter(const interrupt_token& token) const
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
     waiters_.erase(std::remove_if(std::begin(waiters_),
                                   std::end(waiters_),
-                                  [&id](const waiter_info& waiter)
+                                  [&token](const waiter_info& waiter)
                                   {
-                                      return waiter.id == id;
+                                      return waiter.token.is_same(token);
                                   }),
                    std::end(waiters_));
 }
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..f4f3ac5 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -23,6 +23,11 @@ public:
     auto interrupt() noexcept -> bool;
     auto is_interrupted() const noexcept -> bool;
 
+    auto is_same(const interrupt_token& rhs) const noexcept -> bool
+    {
+        return flag_ == rhs.flag_;
+    }
+
 private:
     std::shared_ptr<std::atomic<bool>> flag_;
 };
@@ -98,9 +103,9 @@ protected:
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
-    auto add_waiter(thread::id id) const -> interrupt_token;
+    auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
-    void remove_waiter(thread::id id) const;
+    void remove_waiter(const interrupt_token& token) const;
 
     mutable std::mutex mutex_;
     mutable std::vector<waiter_info> waiters_;
-- 
2.43.0


From 2680c868f6e48e906cd2fe89dc744c1e5009574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:26 +0000
Subject: [PATCH 03/23] fix: get of a void future returned normally without a
 result

When the waiting thread was notified for exit, get on a future<void> or
shared_future<void> returned as if the result had been set. It now throws
broken_promise, like the versions with a value do.
---
 threadpp/detail/future_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..a155e27 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,6 +187,12 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        // the wait may have been ended by an exit notification
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
+
         rethrow_any_exception();
     }
 };
-- 
2.43.0


From ee358d664eb6b7091a3070c0a92df72ebfab059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:26 +0000
Subject: [PATCH 04/23] fix: assigning over a promise left its future waiting
 forever

Move assignment dropped the old shared state without abandoning it, so
waiters and continuations of the old future never proceeded. The old
result is now reported as broken_promise, as it is on destruction.
---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..9a37043 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the temporary abandons our old state if it is not ready
+        basic_promise old(std::move(rhs));
+        std::swap(state_, old.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From d5b6499ed7712ed016f8e8c031b15a011127326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:26 +0000
Subject: [PATCH 05/23] fix: a joined thread could stay registered

A thread object whose function does not unregister itself left its
registration behind after join. The stale entry accepted tasks, made
shutdown time out and was inherited by the next thread that got the same
native id.
---
 threadpp/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..aa19286 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -688,6 +688,8 @@ void thread::join()
 {
     notify_for_exit(get_id());
     std::thread::join();
+    // the thread is gone even if it did not unregister itself
+    unregister_thread_impl(get_id());
 }
 
 void thread::register_this(const std::string& name)
-- 
2.43.0


From c4f0c17b8c2eb5ccc503247ae4d39f0ef6d8f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:13 +0000
Subject: [PATCH 06/23] fix: scheduling from inside a pool job deadlocked

schedule and change_priority wake the workers while the pool is locked.
When called by a worker the wakeup ran in place and locked the pool
again. It is now always queued.
---
 threadpp/thread_pool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..40cbfae 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -202,7 +202,9 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // always queue, as we may be called by a worker
+                    // and the guard is locked
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From 493229e4b682a678e0b8ace30fce646ae068bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:13 +0000
Subject: [PATCH 07/23] fix: stop_all made the pool forget its running jobs

Running jobs were removed together with the pending ones. After that
wait and wait_all returned before they were done and the job count did not
include them. Only pending jobs are removed now.
---
 threadpp/thread_pool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 40cbfae..4e7570d 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -138,7 +138,11 @@ public:
     void clear_all()
     {
         std::lock_guard<std::mutex> lock(guard_);
-        jobs_.clear();
+        for(auto it = jobs_.begin(); it != jobs_.end();)
+        {
+            // jobs without a callable are running and must stay waitable
+            it = it->second.callable ? jobs_.erase(it) : std::next(it);
+        }
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From 53195102a9215a3404469e22b62afe0b0562bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:21 +0000
Subject: [PATCH 08/23] fix: lowering the priority of a pool job had no effect

change_priority queues a second handle for the job. The first one stayed
valid, so a job with a lowered priority still ran at its old place. A
handle that does not match the current priority is now skipped.
---
 threadpp/thread_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 4e7570d..9634c51 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -266,8 +266,9 @@ private:
             }
             auto& job = it->second;
 
-            // if priority level is lower still matches
-            if(level <= job.handle.group.level)
+            // the handle is outdated if the priority was changed after it was queued
+            // in that case the job has another handle
+            if(handle.group == job.handle.group)
             {
                 id = job.handle.id;
                 user_job = std::move(job.callable);
-- 
2.43.0


From ecc06d62ede67f9b500a13f5db81299285732819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:56 +0000
Subject: [PATCH 09/23] fix: thread_pool could not be moved

The move operations were defaulted where the implementation is incomplete,
so moving a pool did not compile outside of the library. Job futures also
kept a pointer to the pool object they came from, which is wrong once that
pool is moved. Futures now refer to the current location of the pool.
---
 threadpp/thread_pool.cpp | 42 ++++++++++++++++++++++++++--------------
 threadpp/thread_pool.h   | 14 +++++++-------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 9634c51..c948bbd 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -305,6 +305,30 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
 
 thread_pool::~thread_pool() = default;
 
+thread_pool::thread_pool(thread_pool&& rhs) noexcept : impl_(std::move(rhs.impl_)), self_(std::move(rhs.self_))
+{
+    if(self_)
+    {
+        *self_ = this;
+    }
+}
+
+auto thread_pool::operator=(thread_pool&& rhs) noexcept -> thread_pool&
+{
+    if(this != &rhs)
+    {
+        // disconnect the futures of our old jobs first
+        self_.reset();
+        impl_ = std::move(rhs.impl_);
+        self_ = std::move(rhs.self_);
+        if(self_)
+        {
+            *self_ = this;
+        }
+    }
+    return *this;
+}
+
 job_id thread_pool::add_job(task& job, priority::group group)
 {
     return impl_->add_job(job, group);
@@ -342,27 +366,17 @@ size_t thread_pool::get_jobs_count() const
 
 void job_future_storage::change_priority(priority::group group)
 {
-    if(sentinel_.expired())
+    if(auto owner = owner_.lock())
     {
-        return;
-    }
-
-    if(owner_)
-    {
-        owner_->change_priority(id, group);
+        (*owner)->change_priority(id, group);
     }
 }
 
 void job_future_storage::stop()
 {
-    if(sentinel_.expired())
-    {
-        return;
-    }
-
-    if(owner_)
+    if(auto owner = owner_.lock())
     {
-        owner_->stop(id);
+        (*owner)->stop(id);
     }
 }
 
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 7e55f0a..f757235 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -69,8 +69,8 @@ struct job_future_storage
     void stop();
 
 private:
-    std::weak_ptr<int> sentinel_{};
-    thread_pool* owner_{};
+    /// refers to the current location of the pool
+    std::weak_ptr<thread_pool*> owner_{};
 };
 
 template<typename T>
@@ -145,8 +145,8 @@ public:
     thread_pool(const std::map<priority::category, size_t>& workers_per_priority_level,
                 tasks_capacity_config config = {});
     thread_pool();
-    thread_pool(thread_pool&&) = default;
-    auto operator=(thread_pool&&) -> thread_pool& = default;
+    thread_pool(thread_pool&& rhs) noexcept;
+    auto operator=(thread_pool&& rhs) noexcept -> thread_pool&;
     ~thread_pool();
 
     thread_pool(const thread_pool&) = delete;
@@ -209,7 +209,8 @@ private:
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
 
-    std::shared_ptr<int> sentinel_ = std::make_shared<int>();
+    /// shared with the job futures, follows the pool when it is moved
+    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
@@ -218,8 +219,7 @@ auto thread_pool::schedule(priority::group group, F&& f, Args&&... args) -> job_
     auto packaged_task = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);
     job_future<async_ret_type<F, Args...>> fut(std::move(packaged_task.callable_future));
     fut.id = add_job(packaged_task.callable, group);
-    fut.sentinel_ = sentinel_;
-    fut.owner_ = this;
+    fut.owner_ = self_;
     return fut;
 }
 
-- 
2.43.0


From 4c7394bfd676463ceab6de7e6144c63c8311f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:34 +0000
Subject: [PATCH 10/23] fix: a pool job scheduling during pool destruction used
 freed memory

The object shared with the job futures was destroyed before the workers
were joined. A job that was still running and scheduled another one
accessed it. It is now destroyed after the workers.
---
 threadpp/thread_pool.cpp | 2 +-
 threadpp/thread_pool.h   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index c948bbd..bdc263f 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -305,7 +305,7 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
 
 thread_pool::~thread_pool() = default;
 
-thread_pool::thread_pool(thread_pool&& rhs) noexcept : impl_(std::move(rhs.impl_)), self_(std::move(rhs.self_))
+thread_pool::thread_pool(thread_pool&& rhs) noexcept : self_(std::move(rhs.self_)), impl_(std::move(rhs.impl_))
 {
     if(self_)
     {
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index f757235..0ba9a03 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -205,12 +205,13 @@ public:
 private:
     auto add_job(task& job, priority::group group) -> job_id;
 
+    /// shared with the job futures, follows the pool when it is moved
+    /// must outlive the workers as their jobs may schedule other jobs
+    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
+
     class impl;
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
-
-    /// shared with the job futures, follows the pool when it is moved
-    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
-- 
2.43.0


From f09d7adb28d7c6549e0335953945dea01393b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:56 +0000
Subject: [PATCH 11/23] fix: a task dropped by unregister_this_thread could be
 destroyed twice

The pending tasks are destroyed together with the queue of the thread.
While that happened the thread was still linked to its queue.
A destructor that waited or processed tasks then used the dying queue.
---
 threadpp/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index aa19286..0d46e8b 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -590,8 +590,10 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    auto id = get_id();
+    // unlink first, as destroying the pending tasks may call us back
     set_local_context(nullptr);
+    unregister_thread_impl(id);
 }
 
 auto notified_for_exit() -> bool
-- 
2.43.0


From 37a0127642ea71c15a3998861f27de494f47ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:56 +0000
Subject: [PATCH 12/23] fix: logging callbacks of init and shutdown could not
 use the library

They were called while the global lock was held.
A callback that sent a task or listed the threads blocked forever.
---
 threadpp/thread.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 0d46e8b..c51e69d 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -178,9 +178,11 @@ void init(const init_data& data)
     }
 
     this_thread::register_this_thread("Main Thread");
-    std::unique_lock<std::mutex> lock(global_context.mutex);
-    global_context.main_thread_id = this_thread::get_id();
-    global_context.config = data;
+    {
+        std::lock_guard<std::mutex> lock(global_context.mutex);
+        global_context.main_thread_id = this_thread::get_id();
+        global_context.config = data;
+    }
     log_info_func("Successful.");
 }
 
@@ -214,19 +216,25 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     };
 
     auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);
+    auto threads_left = static_cast<int>(global_context.contexts.size());
 
+    // the user callbacks must be called and destroyed unlocked
+    lock.unlock();
     if(result)
     {
         log_info_func("Successful.");
-        global_context.config = {};
-        return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
-        global_context.config = {};
-        return static_cast<int>(global_context.contexts.size());
     }
+
+    init_data config{};
+    lock.lock();
+    std::swap(config, global_context.config);
+    lock.unlock();
+
+    return threads_left;
 }
 
 auto get_all_registered_threads() -> std::vector<thread::id>
-- 
2.43.0


From 066a05b65100c7508f9e3bf45347de8fda9413e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:24 +0000
Subject: [PATCH 13/23] fix: stopping pool jobs called user code while the pool
 was locked

Stopped jobs were destroyed with the lock of the pool held.
Destructors of captured values and continuations of the broken futures
blocked forever when they used the pool. A pool that is being destroyed
now also refuses new jobs, because nobody is left to run them.
---
 threadpp/thread_pool.cpp | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index bdc263f..a52b724 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -67,14 +67,15 @@ public:
 
     ~impl()
     {
-        clear_all();
-
         auto workers = [&]()
         {
             std::lock_guard<std::mutex> lock(guard_);
+            stopping_ = true;
             return std::move(workers_);
         }();
 
+        clear_all();
+
         workers.clear();
     }
 
@@ -83,6 +84,11 @@ public:
         auto packaged_task = detail::package_future_task(std::move(user_job));
         std::lock_guard<std::mutex> lock(guard_);
         auto id = free_id_++;
+        if(stopping_)
+        {
+            // no one is left to run it
+            return id;
+        }
         auto& job = jobs_[id];
         job.handle.id = id;
         job.handle.group = group;
@@ -117,31 +123,39 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // unlock of the guard must happen before
+        // destructor of the job as it can call us back
+        job_info job;
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
         {
-            if(check_callable)
-            {
-                if(it->second.callable)
-                {
-                    jobs_.erase(id);
-                }
-            }
-            else
+            if(!check_callable || it->second.callable)
             {
-                jobs_.erase(id);
+                job = std::move(it->second);
+                jobs_.erase(it);
             }
         }
     }
 
     void clear_all()
     {
+        // unlock of the guard must happen before
+        // destructor of the jobs as they can call us back
+        std::vector<job_info> stopped_jobs;
         std::lock_guard<std::mutex> lock(guard_);
         for(auto it = jobs_.begin(); it != jobs_.end();)
         {
             // jobs without a callable are running and must stay waitable
-            it = it->second.callable ? jobs_.erase(it) : std::next(it);
+            if(it->second.callable)
+            {
+                stopped_jobs.emplace_back(std::move(it->second));
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
         }
         job_priority_queues_.clear();
     }
@@ -288,6 +302,7 @@ private:
 
     mutable std::mutex guard_;
     job_id free_id_ = 1;
+    bool stopping_ = false;
     priority_workers workers_;
     std::unordered_map<job_id, job_info> jobs_;
     priority_queues job_priority_queues_;
-- 
2.43.0


From e475119da593cc39f8b5b408942bd6653ad37fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:33 +0000
Subject: [PATCH 14/23] fix: when_any and when_all ran continuations while
 locked

The combined result was set with the lock of the shared context held.
A continuation that completed another input, or waited for a thread
that did, blocked forever.
---
 threadpp/when_all_any.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..6a2ee32 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,10 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          // continuations may run here
+                          lock.unlock();
+                          context->p.set_value(std::move(context->result));
                       }
                   }
               });
@@ -162,11 +164,13 @@ void when_inner_helper(Context context, Future&& f)
         .then(id,
               [context](auto f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   ++context->ready_futures;
                   std::get<I>(context->result) = std::move(f);
                   if(context->ready_futures == context->total_futures)
                   {
+                      // continuations may run here
+                      lock.unlock();
                       context->p.set_value(std::move(context->result));
                   }
               });
@@ -242,11 +246,13 @@ auto when_all(InputIt first, InputIt last) -> future<std::vector<typename std::i
         shared_context->result[index].then(id,
                                            [shared_context, index](auto f)
                                            {
-                                               std::lock_guard<std::mutex> lock(shared_context->mutex);
+                                               std::unique_lock<std::mutex> lock(shared_context->mutex);
                                                shared_context->result[index] = std::move(f);
                                                ++shared_context->ready_futures;
                                                if(shared_context->ready_futures == shared_context->total_futures)
                                                {
+                                                   // continuations may run here
+                                                   lock.unlock();
                                                    shared_context->p.set_value(std::move(shared_context->result));
                                                }
                                            });
@@ -335,7 +341,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +350,10 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        // continuations may run here
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(shared_context->result));
                     }
                 }
             });
@@ -353,12 +361,13 @@ auto when_any(InputIt first, InputIt last)
     }
 
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->promise_set)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->promise_set = true;
+            lock.unlock();
+            shared_context->p.set_value(std::move(shared_context->result));
         }
     }
 
@@ -402,12 +411,13 @@ auto when_any(Futures&&... futures) -> future<when_any_result<std::tuple<std::de
     detail::fill_result_helper<0>(shared_context, std::forward<Futures>(futures)...);
     detail::when_any_helper_struct<0, sz_futures>::apply(shared_context, shared_context->result.futures);
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->result_moved)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->result_moved = true;
+            lock.unlock();
+            shared_context->p.set_value(std::move(shared_context->result));
         }
     }
     return shared_context->p.get_future();
-- 
2.43.0


From e2f5c700fef7b101e18e6ab2569a5941fe9d64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:02 +0000
Subject: [PATCH 15/23] fix: a throwing task left the depth and pending count
 wrong

The depth of the running tasks was not reduced when a task threw.
The counters of the thread stayed too high for ever.
---
 threadpp/thread.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index c51e69d..76b25d4 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -419,6 +419,20 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
 
     if(prepare_tasks(local_context))
     {
+        // leave the processing also if the task throws
+        // note: must be destroyed after the task, as it locks again
+        struct processing_scope
+        {
+            std::unique_lock<std::mutex>& lock;
+            thread_context& context;
+
+            ~processing_scope()
+            {
+                lock.lock();
+                context.processing_stack_depth--;
+            }
+        } scope{lock, local_context};
+
         auto task = std::move(local_context.processing_tasks[local_context.processing_idx]);
         local_context.processing_idx++;
         local_context.processing_stack_depth++;
@@ -433,9 +447,6 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
             task = {};
         }
 
-        lock.lock();
-        local_context.processing_stack_depth--;
-
         return true;
     }
 
-- 
2.43.0


From c254f08731433b4e46925961d131a655086dac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:02 +0000
Subject: [PATCH 16/23] fix: a throwing task left a condition variable wait
 half finished

An exception of a task that was run during the wait left the lock
released and the thread registered as a waiter. Later notifications
went to a wait that was already over.
---
 threadpp/detail/semaphore.cpp | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 5d4670f..a11cc14 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -92,7 +92,23 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
             before_wait();
         }
 
-        this_thread::wait();
+        try
+        {
+            this_thread::wait();
+        }
+        catch(...)
+        {
+            // a task processed while waiting has thrown
+            if(after_wait)
+            {
+                after_wait();
+            }
+            if(added)
+            {
+                remove_waiter(token);
+            }
+            throw;
+        }
 
         if(after_wait)
         {
@@ -143,7 +159,23 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        try
+        {
+            status = this_thread::wait_for(time_left);
+        }
+        catch(...)
+        {
+            // a task processed while waiting has thrown
+            if(after_wait)
+            {
+                after_wait();
+            }
+            if(added)
+            {
+                remove_waiter(token);
+            }
+            throw;
+        }
 
         if(after_wait)
         {
-- 
2.43.0


From e8049f27e0345ca8703850c3b27c74d47891a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:58 +0000
Subject: [PATCH 17/23] fix: a continuation of a void future could not return a
 value

The value was discarded, so such code did not compile.
---
 threadpp/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 9a37043..827a400 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -853,7 +853,7 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
         [f = std::forward<F>(f), state]() mutable
         {
             future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
@@ -908,7 +908,7 @@ auto shared_future<void>::then(thread::id id, std::launch policy, F&& f) const
         [f = std::forward<F>(f), state]() mutable
         {
             shared_future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
-- 
2.43.0


From 23601633aa7fdd573837542d7b7361f80eef0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:03 +0000
Subject: [PATCH 18/23] fix: the name of a thread got lost if the other side
 registered it first

A thread can be registered by itself and by its creator, in any order.
The name given by the later one was ignored even if the earlier gave none.
---
 threadpp/thread.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 76b25d4..30b909b 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -123,6 +123,13 @@ auto register_thread_impl(std::thread::id native_thread_id, const std::string& n
     auto it = global_context.contexts.find(id);
     if(it != global_context.contexts.end())
     {
+        // registered by the thread and by its creator in any order
+        // so the name may be known only to the later one
+        std::lock_guard<std::mutex> local_lock(it->second->tasks_mutex);
+        if(it->second->name.empty())
+        {
+            it->second->name = name;
+        }
         return it->second;
     }
 
-- 
2.43.0


From 9d856a1c774cc629a8bf08f76eb7ac53793a82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:39:37 +0000
Subject: [PATCH 19/23] fix: when_all and when_any never became ready for
 ranges that can be read only once

The inputs were counted by walking over the range before they were taken from
it. A single-pass range is used up by that.
---
 threadpp/when_all_any.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 6a2ee32..d4bb748 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -235,14 +235,17 @@ auto when_all(InputIt first, InputIt last) -> future<std::vector<typename std::i
 
     auto shared_context = std::make_shared<context>();
     auto result_future = shared_context->p.get_future();
-    shared_context->total_futures = std::distance(first, last);
-    shared_context->result.reserve(shared_context->total_futures);
-    size_t index = 0;
+    // input iterators can be passed over only once
+    for(; first != last; ++first)
+    {
+        shared_context->result.emplace_back(copy_or_move(*first));
+    }
+    const size_t total = shared_context->result.size();
+    shared_context->total_futures = total;
     auto id = this_thread::get_id();
 
-    for(; first != last; ++first, ++index)
+    for(size_t index = 0; index < total; ++index)
     {
-        shared_context->result.emplace_back(copy_or_move(*first));
         shared_context->result[index].then(id,
                                            [shared_context, index](auto f)
                                            {
@@ -326,17 +329,18 @@ auto when_any(InputIt first, InputIt last)
     auto shared_context = std::make_shared<context>();
     auto result_future = shared_context->p.get_future();
     shared_context->processed = 0;
-    shared_context->total = std::distance(first, last);
-    shared_context->result.futures.reserve(shared_context->total);
-    shared_context->states.reserve(shared_context->total);
-
-    size_t index = 0;
+    // input iterators can be passed over only once
+    for(; first != last; ++first)
+    {
+        shared_context->result.futures.emplace_back(copy_or_move(*first));
+        shared_context->states.emplace_back(shared_context->result.futures.back()._internal_get_state());
+    }
+    const size_t total = shared_context->result.futures.size();
+    shared_context->total = total;
 
     auto id = this_thread::get_id();
-    for(; first != last; ++first, ++index)
+    for(size_t index = 0; index < total; ++index)
     {
-        shared_context->result.futures.emplace_back(copy_or_move(*first));
-        shared_context->states.emplace_back(shared_context->result.futures[index]._internal_get_state());
         shared_context->result.futures[index].then(
             id,
             [shared_context, index](auto f)
-- 
2.43.0


From 9a40d51abbaf9919e09a874fe1cdbe686ec4ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:42 +0000
Subject: [PATCH 20/23] fix: a throwing copy of a callable or an argument ended
 the program

The copy is made while the task is put together. The exception now reaches the
caller, and nothing is sent.
---
 threadpp/detail/utility/capture.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/threadpp/detail/utility/capture.hpp b/threadpp/detail/utility/capture.hpp
index ee4f84d..f53c139 100644
--- a/threadpp/detail/utility/capture.hpp
+++ b/threadpp/detail/utility/capture.hpp
@@ -31,11 +31,11 @@ public:
     using T = std::tuple<special_decay_t<Args>...>;
 
     template<typename... U, typename = std::enable_if_t<std::is_same<T, std::tuple<special_decay_t<U>...>>::value>>
-    move_on_copy_t(U&&... args) noexcept : value_(std::make_tuple(std::forward<U>(args)...))
+    move_on_copy_t(U&&... args) : value_(std::make_tuple(std::forward<U>(args)...))
     {
     }
 
-    move_on_copy_t(const move_on_copy_t& other) noexcept : value_(std::move(other.value_))
+    move_on_copy_t(const move_on_copy_t& other) : value_(std::move(other.value_))
     {
     }
 
@@ -53,7 +53,7 @@ private:
 };
 
 template<typename... Args>
-auto capture(Args&&... args) noexcept -> move_on_copy_t<Args...>
+auto capture(Args&&... args) -> move_on_copy_t<Args...>
 {
     return {std::forward<Args>(args)...};
 }
-- 
2.43.0


From 633f3f5cbb4634c5bfc0ef79fa90448cf929595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:42 +0000
Subject: [PATCH 21/23] fix: a failing async or then left its fresh thread
 behind

The thread was detached before the task was handed over. If that failed, for
instance because the future was not valid, the thread stayed registered and
waited for a task that never came.
---
 threadpp/future.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 827a400..0c2ec0b 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -713,8 +713,10 @@ auto async(std::launch policy, F&& f, Args&&... args) -> future<async_ret_type<F
             this_thread::wait();
             this_thread::unregister_this_thread();
         });
+    // if this throws the thread is told to exit
+    auto result = async(detached_thread.get_id(), policy, std::forward<F>(f), std::forward<Args>(args)...);
     detached_thread.detach();
-    return async(detached_thread.get_id(), policy, std::forward<F>(f), std::forward<Args>(args)...);
+    return result;
 }
 
 template<typename F, typename... Args>
@@ -769,8 +771,10 @@ auto future<T>::then(std::launch policy, F&& f) -> future<then_ret_type<F, futur
             this_thread::wait();
             this_thread::unregister_this_thread();
         });
+    // if this throws the thread is told to exit
+    auto result = then(detached_thread.get_id(), policy, std::forward<F>(f));
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    return result;
 }
 
 template<typename T>
@@ -828,8 +832,10 @@ auto shared_future<T>::then(std::launch policy, F&& f) const -> future<then_ret_
             this_thread::wait();
             this_thread::unregister_this_thread();
         });
+    // if this throws the thread is told to exit
+    auto result = then(detached_thread.get_id(), policy, std::forward<F>(f));
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    return result;
 }
 
 template<typename T>
@@ -883,8 +889,10 @@ auto future<void>::then(std::launch policy, F&& f) -> future<then_ret_type<F, fu
             this_thread::wait();
             this_thread::unregister_this_thread();
         });
+    // if this throws the thread is told to exit
+    auto result = then(detached_thread.get_id(), policy, std::forward<F>(f));
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    return result;
 }
 
 template<typename F>
@@ -938,8 +946,10 @@ auto shared_future<void>::then(std::launch policy, F&& f) const -> future<then_r
             this_thread::wait();
             this_thread::unregister_this_thread();
         });
+    // if this throws the thread is told to exit
+    auto result = then(detached_thread.get_id(), policy, std::forward<F>(f));
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    return result;
 }
 
 template<typename F>
-- 
2.43.0


From 34e4d1b326aa97e85c8b5e131e7d71987df269af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:02:22 +0000
Subject: [PATCH 22/23] fix: wrapped references, arrays and member functions
 could not be sent as tasks

A call with an argument in std::ref, a string literal or a member function did
not compile when the task was queued, although calls made on the spot and
continuations accept them.
---
 threadpp/detail/utility/capture.hpp |  8 ++++++++
 threadpp/future.hpp                 | 10 +++++-----
 threadpp/thread.h                   |  7 ++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/threadpp/detail/utility/capture.hpp b/threadpp/detail/utility/capture.hpp
index f53c139..239149b 100644
--- a/threadpp/detail/utility/capture.hpp
+++ b/threadpp/detail/utility/capture.hpp
@@ -22,6 +22,14 @@ struct unwrap_refwrapper<std::reference_wrapper<T>>
 template<class T>
 using special_decay_t = typename unwrap_refwrapper<typename std::decay<T>::type>::type;
 
+/// how a captured argument is passed on: as it was given, but wrapped references
+/// and decayed arrays the way they are stored
+template<class T>
+using passed_t = typename std::conditional<
+    std::is_same<special_decay_t<T>, typename std::remove_cv<typename std::remove_reference<T>::type>::type>::value,
+    T&&,
+    special_decay_t<T>&&>::type;
+
 template<typename... Args>
 class move_on_copy_t
 {
diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 0c2ec0b..61b8dd9 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -593,9 +593,9 @@ template<typename... Args, typename T, typename F, typename Tuple>
 auto apply_and_forward_as(promise<T>& p, F&& f, Tuple& params) -> std::enable_if_t<!std::is_same<T, void>::value>
 {
     p.set_value(utility::apply(
-        [&f](std::decay_t<Args>&... args)
+        [&f](special_decay_t<Args>&... args)
         {
-            return std::forward<F>(f)(std::forward<Args>(args)...);
+            return utility::invoke(std::forward<F>(f), static_cast<passed_t<Args>>(args)...);
         },
         params));
 }
@@ -603,9 +603,9 @@ template<typename... Args, typename T, typename F, typename Tuple>
 auto apply_and_forward_as(promise<T>& p, F&& f, Tuple& params) -> std::enable_if_t<std::is_same<T, void>::value>
 {
     utility::apply(
-        [&f](std::decay_t<Args>&... args)
+        [&f](special_decay_t<Args>&... args)
         {
-            std::forward<F>(f)(std::forward<Args>(args)...);
+            utility::invoke(std::forward<F>(f), static_cast<passed_t<Args>>(args)...);
         },
         params);
     p.set_value();
@@ -638,7 +638,7 @@ auto package_future_task(F&& f, Args&&... args) -> packaged_task<async_ret_type<
 				try
 				{
 					detail::apply_and_forward_as<Args...>(
-						std::get<0>(p.get()), std::forward<F>(std::get<0>(f.get())), params.get());
+						std::get<0>(p.get()), static_cast<passed_t<F>>(std::get<0>(f.get())), params.get());
 				}
 				catch(...)
 				{
diff --git a/threadpp/thread.h b/threadpp/thread.h
index 2eceac5..000ef2d 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -276,9 +276,10 @@ auto package_simple_task(F&& f, Args&&... args) -> task
     return [callable = capture(std::forward<F>(f)), params = capture(std::forward<Args>(args)...)]() mutable
     {
         utility::apply(
-            [&callable](std::decay_t<Args>&... args)
+            [&callable](special_decay_t<Args>&... args)
             {
-                std::forward<F>(std::get<0>(callable.get()))(std::forward<Args>(args)...);
+                utility::invoke(static_cast<passed_t<F>>(std::get<0>(callable.get())),
+                                static_cast<passed_t<Args>>(args)...);
             },
             params.get());
     };
@@ -306,7 +307,7 @@ auto dispatch(thread::id id, F&& f, Args&&... args) -> bool
     if(this_thread::get_id() == id)
     {
         // directly call it
-        std::forward<F>(f)(std::forward<Args>(args)...);
+        utility::invoke(std::forward<F>(f), std::forward<Args>(args)...);
         return true;
     }
     else
-- 
2.43.0


From 8c93e28605d237245afb535c9a30983c2fe0d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:27 +0000
Subject: [PATCH 23/23] fix: make_ready_future accepted only temporaries

A variable made the type of the future a reference, which does not compile. The
future now holds a copy of it.
---
 threadpp/future.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 61b8dd9..355b048 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -58,7 +58,7 @@ auto async(F&& f, Args&&... args) -> future<async_ret_type<F, Args...>>;
 /// and holds the given value
 //-----------------------------------------------------------------------------
 template<typename T>
-auto make_ready_future(T&& value) -> future<T>;
+auto make_ready_future(T&& value) -> future<std::decay_t<T>>;
 
 //-----------------------------------------------------------------------------
 /// produces a future that is ready immediately
@@ -547,9 +547,9 @@ public:
 /// IMPLEMENTATIONS
 //-----------------------------------------------------------------------------
 template<typename T>
-auto make_ready_future(T&& value) -> future<T>
+auto make_ready_future(T&& value) -> future<std::decay_t<T>>
 {
-    promise<T> prom;
+    promise<std::decay_t<T>> prom;
     prom.set_value(std::forward<T>(value));
     return prom.get_future();
 }
-- 
2.43.0

