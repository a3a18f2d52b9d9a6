From 5a7400a1e7dc65331d3b337c81f3bceca1517605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 01/59] fix: destroy the value held in a Future shared state

---
 src/Future.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index b506507..f996894 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (isSet && !exception)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
-- 
2.43.0


From 87c9fe0304d151494be40b482b3ab6f75f093e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 02/59] fix: break the overwritten promise when move-assigning
 a Promise

---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index f996894..88cbf58 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -412,7 +412,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From a280fb2e51c2fd6be02efb3f8d78093e99404c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 03/59] fix: wake every waiter of a Future when it becomes
 ready

---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 88cbf58..c93a28b 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -140,7 +140,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -172,7 +172,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From a6c4c1a5439b97b92237a8861510a9aa8f1ca93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 04/59] fix: leave a Promise unset when constructing its value
 throws

---
 src/Future.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index c93a28b..e6e9817 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,7 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_) -> ContinuationPtr {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -475,8 +475,14 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        struct Guard {
+            ~Guard() noexcept { if (unset) promise.m_state.swap(state); }
+            Promise & promise;
+            SharedStatePtr state;
+            bool unset;
+        } guard{*this, SharedStatePtr(std::move(m_state)), true};
+        guard.state->emplaceValue(std::forward<Args>(args)...);
+        guard.unset = false;
     }
 
     void setValue(T && v)
-- 
2.43.0


From 2afafe7816956f618d1cab38aae5874123afa5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 05/59] fix: make PackagedTask::reset() compile

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index e6e9817..b5c9349 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -604,7 +604,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From 6a6089cc2cf7e4ed8f869953ea515d6c27acd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 06/59] fix: let PackagedTask's constructor report failures
 instead of terminating

noexcept(noexcept(<constant>)) is always true, so a failing allocation of
the promise's shared state or a throwing copy of the callable terminated
the process.
---
 src/Future.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index b5c9349..448ee7e 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -566,9 +566,6 @@ public: /* Methods: */
 
     template <typename F>
     PackagedTask(F && f)
-            noexcept(noexcept(std::is_nothrow_constructible<
-                                    decltype(PackagedTask::m_function),
-                                    decltype(std::forward<F>(f))>::value))
         : m_function(std::forward<F>(f))
     {}
 
-- 
2.43.0


From ae3fab6c83d81a8709f5702a9b90a02675aa9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 07/59] fix: ThreadPool constructor no longer leaks its first
 queue node when it throws

---
 src/ThreadPool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..ad7dfa7 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -144,7 +144,7 @@ public: /* Methods: */
 
 protected: /* Methods: */
 
-    ThreadPool() : ThreadPool(new TaskWrapper(nullptr)) {}
+    ThreadPool() : ThreadPool(Task(new TaskWrapper(nullptr))) {}
 
     void workerThread() {
         while (Task task = waitAndPop()) {
@@ -205,9 +205,9 @@ protected: /* Methods: */
 
 private: /* Methods: */
 
-    ThreadPool(TaskWrapper * const emptyTaskWrapper)
-        : m_tail(emptyTaskWrapper)
-        , m_head(emptyTaskWrapper)
+    ThreadPool(Task emptyTaskWrapper)
+        : m_tail(emptyTaskWrapper.get())
+        , m_head(std::move(emptyTaskWrapper))
     {}
 
     Task waitAndPop() noexcept {
-- 
2.43.0


From f6369fed16dc8d105e804efa084e4663c26b169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 08/59] fix: do not leak the task when ThreadPool::createTask()
 fails to allocate

---
 src/ThreadPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index ad7dfa7..68774e5 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -266,7 +266,8 @@ private: /* Methods: */
     template <typename TaskSubclass>
     static Task createTask_(TaskSubclass * const task) {
         assert(task);
-        return Task(new TaskWrapper(std::unique_ptr<TaskBase>(task)));
+        std::unique_ptr<TaskBase> taskPtr(task);
+        return Task(new TaskWrapper(std::move(taskPtr)));
     }
 
 private: /* Fields: */
-- 
2.43.0


From 86aa798e9eec044ab502b17fb95c24e37202d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 09/59] fix: destroy the pending tasks of a ThreadPool
 iteratively

---
 src/ThreadPool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 68774e5..de12cb6 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -95,7 +95,11 @@ public: /* Methods: */
     ThreadPool & operator=(ThreadPool &&) = delete;
     ThreadPool & operator=(ThreadPool const &) = delete;
 
-    virtual ~ThreadPool() noexcept {}
+    virtual ~ThreadPool() noexcept {
+        // Avoid recursion proportional to the number of pending tasks:
+        while (m_head)
+            m_head = Task(std::move(m_head->m_next));
+    }
 
     template <typename F>
     static Task createTask(F && f) {
-- 
2.43.0


From b05fcb4e9950a0dc915e3f33b7d1d3590ac5032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 10/59] fix: honour the deadline of timed participation while
 another participant waits for tasks

---
 src/ThreadPool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index de12cb6..ec3b0a7 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -215,7 +215,7 @@ private: /* Methods: */
     {}
 
     Task waitAndPop() noexcept {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::lock_guard<decltype(m_headMutex)> const headGuard(m_headMutex);
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -242,7 +242,11 @@ private: /* Methods: */
     std::pair<Task, Status> waitAndPop(
             std::chrono::time_point<Clock, Duration> const & timepoint) noexcept
     {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        // Another thread might hold m_headMutex for as long as it waits for tasks:
+        std::unique_lock<decltype(m_headMutex)> const headLock(m_headMutex,
+                                                               timepoint);
+        if (!headLock.owns_lock())
+            return {Task(), stopNotified() ? StopNotified : Timeout};
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -276,7 +280,7 @@ private: /* Methods: */
 
 private: /* Fields: */
 
-    std::mutex m_headMutex;
+    std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
     TaskWrapper * m_tail;
-- 
2.43.0


From 71663df172e7eb9231e1b6a30d4d86e84b2cee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 11/59] fix: destroy the pending tasks of a Strand iteratively

---
 src/Strand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Strand.h b/src/Strand.h
index 6cb3b2c..c04ee86 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -64,6 +64,12 @@ private: /* Types: */
             : m_threadPool(std::move(threadPool))
         {}
 
+        ~Internal() noexcept {
+            // Avoid recursion proportional to the number of pending tasks:
+            while (m_head)
+                m_head = ThreadPool::Task(std::move(m_head->m_next));
+        }
+
         void submit(ThreadPool::Task && task) noexcept {
             assert(task);
             assert(task->m_value);
-- 
2.43.0


From da3fa0032bac516ba6debe86c3d4428e96d4e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 12/59] fix: order the hand-over of nodes in
 MpscWaitFreeSemiIntrusiveQueue

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 68f3da9e21e9618d3b1fd4b7feb2f9ff0d122f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 13/59] fix: let SharedResourceMap::forEach() drop the
 references it hands out

---
 src/SharedResourceMap.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..62a2333 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -80,10 +81,19 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // Releasing the last pointer to a resource locks m_mutex, hence no
+            // resource may be released before m_mutex is unlocked:
+            std::vector<std::shared_ptr<Value> > resources;
             std::unique_lock<std::mutex> lock(m_mutex);
+            resources.reserve(m_data.size());
             for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
-                    f(v.first, std::move(ptr));
+                resources.emplace_back(v.second->weakPtr.lock());
+            auto it = resources.cbegin();
+            for (auto const & v : m_data) {
+                if (*it)
+                    f(v.first, std::shared_ptr<Value>(*it));
+                ++it;
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From 75a41ceea230b1b37c0eacaca6057de86b0d81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 14/59] fix: release resources of SharedResourceMap exactly
 once, by their last user

---
 src/SharedResourceMap.h | 57 ++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 62a2333..edf2c27 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -122,6 +122,33 @@ private: /* Types: */
         Map_ m_data;
     };
 
+    /** Shared by the users of a resource, and destroyed by the last of them. */
+    struct Users_ {
+
+        ~Users_() noexcept {
+            if (!valueObj)
+                return;
+            if (auto const cPtr = valueObj->container.lock()) {
+                Inner & c = *static_cast<Inner *>(cPtr.get());
+                std::lock_guard<std::mutex> const guard(c.m_mutex);
+                auto const it = c.m_data.find(valueObj->key);
+                assert(it != c.m_data.end());
+                assert(it->second == valueObj);
+                valueObj.reset();
+                /* Only the map refers to the resource now, unless it has other
+                   users already or there were other users still on their way
+                   here. */
+                if (it->second.use_count() == 1) {
+                    c.m_data.erase(it);
+                    c.m_cond.notify_all();
+                }
+            }
+        }
+
+        std::shared_ptr<ValueObj_> valueObj;
+
+    };
+
 public: /* Types: */
 
     using type = SharedResourceMap<Key, Value>;
@@ -167,27 +194,15 @@ public: /* Methods: */
             Constructor && constructor,
             Args && ... args)
     {
-        static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
-        {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
-                        if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
-                        {
-                            valueObj.reset();
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
-                    }
-                });
-            valueObj->weakPtr = r;
-            return r;
-        };
+        static auto const createShared =
+                [](std::shared_ptr<ValueObj_> const & valueObj)
+                {
+                    auto const users(std::make_shared<Users_>());
+                    users->valueObj = valueObj;
+                    std::shared_ptr<Value> r(users, valueObj->realPtr.get());
+                    valueObj->weakPtr = r;
+                    return r;
+                };
 
         std::lock_guard<std::mutex> const guard(m_inner->m_mutex);
         auto it = m_inner->m_data.find(key);
-- 
2.43.0


From b24bf0c326b02978d070d43d033d41baa7d4d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 15/59] fix: let exceptions of resource constructors leave
 SharedResourceMap::getResource()

ValueObj_'s constructor runs the user's constructor but was noexcept, hence
the process terminated when constructing a resource failed.
---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index edf2c27..9bc594a 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -58,7 +58,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From bf7adec4506c705a623714c9dd224b6c308f0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 16/59] fix: let IdentifierPool::reserve() report failures

IdHolder's constructor calls State::reserve(), which throws when identifiers or
memory run out, but was noexcept, hence the process terminated.
---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From ccb38fe889a472e8982136aa9bdd89b2e35771a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 17/59] fix: do not recycle the identifier of an IdHolder moved
 to itself

The holder kept the identifier it had recycled: the identifier could be reserved
a second time, and was recycled a second time.
---
 src/IdentifierPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..fe21b1f 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,6 +116,8 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
+            if (this == &move)
+                return *this;
             if (m_state)
                 m_state->recycle(m_id);
             m_id = move.m_id;
-- 
2.43.0


From 1f60e6d30028c67d38965b836eaf7a0cecf4ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 18/59] fix: throw the declared exception from pools of
 StrongType identifiers

IdentifierPool<StrongType<...>>::reserve() threw the ReserveException of the
underlying pool, which was unrelated to the one documented.
---
 src/IdentifierPool.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index fe21b1f..605f1d4 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -181,15 +181,13 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
+
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From 816cf064623fe0adc75a76a0a65fac5589c9b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 19/59] fix: survive failing reads when EventLoop flushes its
 wake-ups

read() returning -1 failed an assertion before errno was looked at, and when the
wake-ups filled the buffer exactly, the loop kept reading an empty pipe instead
of finishing the iteration, stalling all handlers and barriers.
---
 src/EventLoop.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..05821b7 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,14 +328,19 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
                             if (rd == 0 // HUP or EOF
                                     || (static_cast<void>(assert(rd == -1)),
                                         (errno != EAGAIN) && (errno != EINTR)))
                                 return; // Error or stop signalled
-                        } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
-                        { goto Sharemind_EventLoop_run_continue; }
+                            if (errno == EAGAIN) // Nothing left to flush
+                                goto Sharemind_EventLoop_run_continue;
+                        } else {
+                            assert(static_cast<std::size_t>(rd)
+                                   <= DISCARD_SIZE);
+                            if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
+                                goto Sharemind_EventLoop_run_continue;
+                        }
                     }
                 }
                 handleEvent(*it);
-- 
2.43.0


From 2706b425bb7856ed966c46215513af9dd9cd4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 20/59] fix: do not close the wake-up pipe of EventLoop while
 it is in use

stopAsync() closed the write end and changed it without synchronization:
concurrent calls closed it twice, and a concurrent iteration barrier could write
to a descriptor which had been closed and possibly reused.
---
 src/EventLoop.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 05821b7..dfce884 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -157,15 +157,7 @@ private: /* Types: */
 
         ~Pipe() noexcept {
             ::close(readEnd);
-            if (readEnd != writeEnd)
-                ::close(writeEnd);
-        }
-
-        void writeEndClose() noexcept {
-            if (writeEnd == readEnd)
-                return;
             ::close(writeEnd);
-            writeEnd = readEnd;
         }
 
     /* Fields: */
@@ -277,7 +269,14 @@ public: /* Methods: */
         #endif
     }
 
-    void stopAsync() noexcept { m_closePipe.writeEndClose(); }
+    void stopAsync() noexcept {
+        m_stopRequested.store(true, std::memory_order_release);
+        // Wake the loop up, which it already is if the pipe is full:
+        static char const data = '\0';
+        while (::write(m_closePipe.writeEnd, &data, 1u) == -1)
+            if (errno != EINTR)
+                break;
+    }
 
     void stop() noexcept {
         stopAsync();
@@ -346,6 +345,8 @@ public: /* Methods: */
                 handleEvent(*it);
             }
     Sharemind_EventLoop_run_continue:
+            if (m_stopRequested.load(std::memory_order_acquire))
+                return;
             loopIterationFinish();
         }
         #endif
@@ -492,6 +493,7 @@ private: /* Fields: */
     /* Initialization required for valgrind not to report uninitialized memory
        access: */
     std::atomic<unsigned> m_loopCounter{0u};
+    std::atomic<bool> m_stopRequested{false};
     std::mutex m_stopMutex;
 
 }; /* class EventLoop { */
-- 
2.43.0


From b8e18f62c7f81a77a7d2b473eb5c2524387a50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 21/59] fix: let EventLoop's iteration barrier always return,
 but never too early

Failing to lock m_stopMutex was taken as a running loop, although the mutex might
be held by another barrier, by stop() or by run() past its last iteration, in
which case the barrier waited forever. When waking up the loop failed, the barrier
returned although handlers might still be running.
---
 src/EventLoop.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index dfce884..dbd4e6a 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -390,10 +390,16 @@ private: /* Methods: */
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
-                return;
+                break;
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            // The loop might not be running, or ending without an iteration:
+            if (m_stopMutex.try_lock()) {
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From d2e43fb6434211b421561b558eda28cb5079fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 22/59] fix: survive failing reads when loading a Datum from a
 file

read() returning -1 failed an assertion before errno was looked at: an interrupted
or failed read aborted the process instead of being retried or reported.
---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..4d637ee 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,6 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
@@ -188,6 +187,7 @@ private: /* Methods: */
                         if (errno != EINTR)
                             throw ErrnoException(errno);
                     } else {
+                        assert(static_cast<U>(read) <= toReadAtOnce);
                         leftToRead -= static_cast<U>(read);
                         if (leftToRead <= 0u)
                             break;
-- 
2.43.0


From d937c790f66136a01410827dc564bf78d1860f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 23/59] fix: let reads from an empty IncomingNetworkMessage
 fail

A message without data is fine for the constructor, but every read from it failed
an assertion instead of reporting that there is nothing left to read.
---
 src/NetworkMessage.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..fc347ee 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -238,21 +238,23 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
         return false;
 
-    std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
-    m_offset += size;
+    if (size > 0u) {
+        std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
+        m_offset += size;
+    }
     return true;
 }
 
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -267,7 +269,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -298,7 +300,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -365,7 +367,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
@@ -377,8 +379,10 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
     if (getRemainingSize() < sizeInBytes)
         return false;
 
-    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
-    m_offset += sizeInBytes;
+    if (sizeInBytes > 0u) {
+        std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
+        m_offset += sizeInBytes;
+    }
     return true;
 }
 
-- 
2.43.0


From e457c4a29a6dea3bf8a294e4bc580016c34d9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 24/59] fix: restore the read position when
 IncomingNetworkMessage::readSize() throws

All other failing reads leave the read position where it was.
---
 src/NetworkMessage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index fc347ee..fdb70b6 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -328,12 +328,16 @@ template <typename SerializedSizeType,
 inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
+    auto const rollbackOffset(m_offset);
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
         if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -350,12 +354,16 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SerializedSizeType>::value, "");
     static_assert(std::is_unsigned<SizeType>::value, "");
 
+    auto const rollbackOffset(m_offset);
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
         if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From 67299715addf4e537d7411c56d378e0328d68c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 25/59] fix: write strings and messages to
 OutgoingNetworkMessage by their content

For non-const lvalues and rvalues the template write() was a better match than the
overloads for std::string, char const * and NetworkMessage: it wrote the bytes of
the object itself, pointers included.
---
 src/NetworkMessage.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index fdb70b6..6d18bc6 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -138,6 +138,22 @@ public: /* Methods: */
 
 class OutgoingNetworkMessage: public SeekableNetworkMessage {
 
+private: /* Types: */
+
+    /* Whether values of (possibly reference) type T are written as their bytes,
+       i.e. not by one of the non-template write() methods: */
+    template <typename T>
+    using IsWrittenAsBytes =
+            std::integral_constant<
+                bool,
+                !std::is_convertible<typename std::remove_reference<T>::type *,
+                                     NetworkMessage const *>::value
+                && !std::is_convertible<
+                        typename std::remove_reference<T>::type *,
+                        std::string const *>::value
+                && !std::is_same<typename std::decay<T>::type, char *>::value
+            >;
+
 public: /* Methods: */
 
     OutgoingNetworkMessage(OutgoingNetworkMessage const &) = delete;
@@ -155,7 +171,8 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    template<typename T,
+             typename std::enable_if<IsWrittenAsBytes<T>::value, int>::type = 0>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -420,7 +437,11 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
 { writeBytes(message.data, message.size); }
 
-template <typename T>
+template <typename T,
+          typename std::enable_if<
+                OutgoingNetworkMessage::IsWrittenAsBytes<T>::value,
+                int
+            >::type>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From ad837d4a8854f33d359ef2a37f102e608db43fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 26/59] fix: allow destroying an ObjectTree child when memory
 is short

The assertion in unregisterChild() allocated memory in a noexcept function.
---
 src/ObjectTree.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ObjectTree.h b/src/ObjectTree.h
index 715dc8c..eb37506 100644
--- a/src/ObjectTree.h
+++ b/src/ObjectTree.h
@@ -169,7 +169,7 @@ private: /* Methods: */
     void registerChild(ChildNodeType * const childNode) {
         lock_guard lock(m_mutex);
         assert(!m_childNodes.count(childNode));
-        assert(!childrenNoLock().count(childNode->realChild()));
+        assert(!hasChildNoLock(childNode->realChild()));
         m_childNodes.insert(childNode);
     }
 
@@ -177,7 +177,14 @@ private: /* Methods: */
         lock_guard lock(m_mutex);
         assert(m_childNodes.count(childNode));
         m_childNodes.erase(childNode);
-        assert(!childrenNoLock().count(childNode->realChild()));
+        assert(!hasChildNoLock(childNode->realChild()));
+    }
+
+    bool hasChildNoLock(ChildType const * const child) const noexcept {
+        for (ChildNodeType const * const childNode : m_childNodes)
+            if (childNode->realChild() == child)
+                return true;
+        return false;
     }
 
     std::set<ChildType *> childrenNoLock() const {
-- 
2.43.0


From 6dc2542217e12c644a842cb8f6af9b648cd930e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 27/59] fix: make swapping and converting assignments of
 Optional compile

---
 src/Optional.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..ed7cd20 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -236,12 +236,12 @@ struct CopyAssignmentBase<T, true>: MoveConstructorBase<T> {
 
     CopyAssignmentBase(CopyAssignmentBase && move) = default;
 
-#define SHAREMIND_OPTIONAL_H_COPY_ASSIGN(fromOptional) \
-    if (fromOptional.m_containsValue) { \
+#define SHAREMIND_OPTIONAL_H_COPY_ASSIGN(fromContainsValue, fromData) \
+    if (fromContainsValue) { \
         if (this->m_containsValue) { \
-            this->m_data = fromOptional.m_data; \
+            this->m_data = fromData; \
         } else { \
-            new (std::addressof(this->m_data)) T(fromOptional.m_data); \
+            new (std::addressof(this->m_data)) T(fromData); \
             this->m_containsValue = true; \
         } \
     } else { \
@@ -252,7 +252,7 @@ struct CopyAssignmentBase<T, true>: MoveConstructorBase<T> {
     CopyAssignmentBase & operator=(CopyAssignmentBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value
                      && std::is_nothrow_copy_assignable<T>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(copy); }
+    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(copy.m_containsValue, copy.m_data); }
 
     CopyAssignmentBase & operator=(CopyAssignmentBase &&) = default;
 
@@ -282,13 +282,12 @@ struct MoveAssignmentBase<T, true>: CopyAssignmentBase<T> {
 
     MoveAssignmentBase & operator=(MoveAssignmentBase const & copy) = default;
 
-#define SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(fromOptional) \
-        if (fromOptional.m_containsValue) { \
+#define SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(fromContainsValue, fromData) \
+        if (fromContainsValue) { \
             if (this->m_containsValue) { \
-                this->m_data = std::move(fromOptional.m_data); \
+                this->m_data = std::move(fromData); \
             } else { \
-                new (std::addressof(this->m_data)) T( \
-                        std::move(fromOptional.m_data)); \
+                new (std::addressof(this->m_data)) T(std::move(fromData)); \
                 this->m_containsValue = true; \
             } \
         } else { \
@@ -299,7 +298,7 @@ struct MoveAssignmentBase<T, true>: CopyAssignmentBase<T> {
     MoveAssignmentBase & operator=(MoveAssignmentBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value
                      && std::is_nothrow_move_assignable<T>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(move); }
+    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(move.m_containsValue, move.m_data); }
 
 };
 
@@ -452,7 +451,7 @@ public: /* Methods: */
     Optional & operator=(Optional<U> const & rhs)
             noexcept(std::is_nothrow_constructible<T, U const &>::value
                      && std::is_nothrow_assignable<T, U const &>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs); }
+    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs.hasValue(), *rhs); }
 #undef SHAREMIND_OPTIONAL_H_COPY_ASSIGN
 
     template <
@@ -466,7 +465,7 @@ public: /* Methods: */
     Optional & operator=(Optional<U> && rhs)
             noexcept(std::is_nothrow_constructible<T, U &&>::value
                      && std::is_nothrow_assignable<T, U &&>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs); }
+    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs.hasValue(), *rhs); }
 #undef SHAREMIND_OPTIONAL_H_MOVE_ASSIGN
 
     constexpr T const * operator->() const noexcept
@@ -673,9 +672,12 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
-swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
+typename std::enable_if<
+    std::is_move_constructible<T>::value && IsSwappable<T>::value,
+    void
+>::type
+swap(Optional<T> & a, Optional<T> & b) noexcept(noexcept(a.swap(b)))
+{ return a.swap(b); }
 
 template <typename T>
 constexpr Optional<typename std::decay<T>::type> makeOptional(T && v)
-- 
2.43.0


From 32fb0dc1777ccd8fd9e58e3f4028303275d56e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 28/59] fix: make assigning lists to and hinted insertion in
 UnorderedMap compile

---
 src/UnorderedMap.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..b6d6bca 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -425,12 +425,9 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(0u, m_hasher, m_pred, m_allocator);
+        newMap.insert(values);
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
@@ -572,7 +569,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From ccf4d29c60fdad1aa0a7dd97d3a4035bba143d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 29/59] fix: do not leak items rejected by
 IntrusiveUnorderedSharedItemSet

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From 7167d112c6f80f98a81e882a4c6dbc8037f5a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 30/59] fix: do not copy set membership with items of
 IntrusiveUnorderedSharedItemSet

A copy of an item kept the original alive forever, and assigning to an
item in a set destroyed it while it was still linked.
---
 src/IntrusiveUnorderedSharedItemSet.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 33a50eb..7a8566d 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -52,8 +52,20 @@ class IntrusiveUnorderedSharedItemSetItemBase
 
 public: /* Methods: */
 
+    IntrusiveUnorderedSharedItemSetItemBase() noexcept = default;
+
+    /* Being contained in a set is not a copyable property of an item: */
+    IntrusiveUnorderedSharedItemSetItemBase(
+            IntrusiveUnorderedSharedItemSetItemBase const &) noexcept
+        : IntrusiveUnorderedSharedItemSetItemBase()
+    {}
+
     virtual ~IntrusiveUnorderedSharedItemSetItemBase() noexcept {}
 
+    IntrusiveUnorderedSharedItemSetItemBase & operator=(
+            IntrusiveUnorderedSharedItemSetItemBase const &) noexcept
+    { return *this; }
+
 private: /* Fields: */
 
     mutable std::shared_ptr<T> m_selfPtr;
-- 
2.43.0


From 70dfd3ef00c5b0eff6e8ad76947394c564a4092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 31/59] fix: keep Optionals empty until their value is
 constructed

When constructing the value threw in the copy or move constructor, the
destructor of a value which was never constructed was called.
---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index ed7cd20..35f3667 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From 878273461914100f76f1c27543b977e6c84f99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 32/59] fix: let exceptions leave Optional::emplace() with an
 initializer list

---
 src/Optional.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index 35f3667..de0741d 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -559,7 +559,11 @@ public: /* Methods: */
 
     template <typename U, typename ... Args>
     auto emplace(std::initializer_list<U> il, Args && ... args)
-            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+            noexcept(std::is_nothrow_constructible<
+                        T,
+                        std::initializer_list<U> &,
+                        Args &&...
+                    >::value)
             -> typename std::enable_if<
                     std::is_constructible<
                         T,
-- 
2.43.0


From 24796da7ce6c088ba076d3f7e436be849125bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 33/59] fix: copy the elements of UnorderedMap when copying the
 map

Copies shared their elements with the original, so changing one changed
the other. A failing copy assignment also lost the elements of its
target.
---
 src/UnorderedMap.h | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index b6d6bca..7180588 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -366,12 +366,10 @@ public: /* Methods: */
     {}
 
     UnorderedMap(UnorderedMap const & copy)
-        : m_hasher(copy.m_hasher)
-        , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
-        , m_allocator(
-            std::allocator_traits<allocator_type>
-                ::select_on_container_copy_construction(copy.m_allocator))
+        : UnorderedMap(
+              copy,
+              std::allocator_traits<allocator_type>
+                  ::select_on_container_copy_construction(copy.m_allocator))
     {}
 
     UnorderedMap(UnorderedMap && move) = default;
@@ -383,7 +381,7 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy, allocator_type const & allocator)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
+        , m_container(copyElements(copy.m_container, allocator))
         , m_allocator(allocator)
     {}
 
@@ -400,13 +398,17 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
+            using PropagateAllocator =
+                    Detail::UnorderedMap::PropagateAllocator<
+                        std::allocator_traits<allocator_type>
+                            ::propagate_on_container_copy_assignment::value>;
+            allocator_type newAllocator(m_allocator);
+            PropagateAllocator::copy(newAllocator, rhs.m_allocator);
+            auto newContainer(copyElements(rhs.m_container, newAllocator));
             m_hasher = rhs.m_hasher;
             m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
-            Detail::UnorderedMap::PropagateAllocator<
-                        std::allocator_traits<allocator_type>
-                            ::propagate_on_container_copy_assignment::value
-                    >::copy(m_allocator, rhs.m_allocator);
+            std::swap(m_container, newContainer);
+            PropagateAllocator::copy(m_allocator, rhs.m_allocator);
         }
         return *this;
     }
@@ -967,6 +969,19 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    static InnerContainer copyElements(InnerContainer const & from,
+                                       allocator_type const & allocator)
+    {
+        InnerContainer r(from.bucket_count());
+        r.max_load_factor(from.max_load_factor());
+        for (auto const & v : from)
+            r.emplace(v.first,
+                      std::allocate_shared<value_type>(allocator, *v.second));
+        return r;
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From e0631de62fb8815b70dad61b15ac13054b1cb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 34/59] fix: keep items alive when
 IntrusiveUnorderedSharedItemSet::take() throws

The item was destroyed while still linked into the set.
---
 src/IntrusiveUnorderedSharedItemSet.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 7a8566d..0eb9f12 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -234,11 +234,10 @@ public: /* Methods: */
     }
 
     std::shared_ptr<T> take(Reference ref)
-            noexcept(noexcept(std::declval<Container &>().erase(ref)))
+            noexcept(noexcept(std::declval<Container &>().find(ref)))
     {
-        auto r(ItemTraits::takePtr(ref));
-        m_container.erase(ref);
-        return r;
+        auto const it(m_container.find(ref));
+        return (it != m_container.cend()) ? take(it) : nullptr;
     }
 
     static std::shared_ptr<ValueType> retrieveSharedPtr(ConstIterator const it)
-- 
2.43.0


From 2f3a8aba3519ab6646bdf5ad692a11b4800a280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 35/59] fix: allow loading and testing constant AtomicFlags

---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..0450828 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From 11e3bbef0dbf336cbab744478f1a1ea7a37a34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 36/59] fix: make Flags and AtomicFlags of integral types
 compile

---
 src/AtomicFlags.h |  5 +----
 src/Flags.h       | 14 ++++++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 0450828..3e3dd43 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -185,10 +185,7 @@ template <typename EnumOrIntegral>
 using AtomicFlags =
         Detail::AtomicFlags<
             EnumOrIntegral,
-                typename std::conditional<
-                    std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+            typename Detail::FlagsUnderlyingType<EnumOrIntegral>::type>;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..669c542 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -28,6 +28,15 @@ namespace Detail {
 
 template <typename, typename> class AtomicFlags;
 
+template <typename EnumOrIntegral,
+          bool = std::is_integral<EnumOrIntegral>::value>
+struct FlagsUnderlyingType { using type = EnumOrIntegral; };
+
+template <typename EnumOrIntegral>
+struct FlagsUnderlyingType<EnumOrIntegral, false>
+        : std::underlying_type<EnumOrIntegral>
+{};
+
 template <typename T, typename U>
 class Flags {
 
@@ -102,10 +111,7 @@ template <typename EnumOrIntegral>
 using Flags =
         Detail::Flags<
             EnumOrIntegral,
-            typename std::conditional<
-                std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+            typename Detail::FlagsUnderlyingType<EnumOrIntegral>::type>;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From cfc1dd093db790f7df998517ed7e5f0f49b6e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 37/59] fix: do not move from lvalue exceptions in
 makeExceptionalFuture()

---
 src/Future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 448ee7e..4f73839 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -538,7 +538,7 @@ inline Future<T> makeExceptionalFuture(std::exception_ptr exception) {
 template <typename T, typename Exception>
 inline Future<T> makeExceptionalFuture(Exception && exception) {
     Promise<T> p;
-    p.setException(std::move(exception));
+    p.setException(std::forward<Exception>(exception));
     return p.takeFuture();
 }
 
-- 
2.43.0


From e78ef124f140022be68c5c18853bfb50fe928d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 38/59] fix: do not wait for space in the wake-up pipe of
 EventLoop

The iteration barrier kept trying to write to a full pipe, also once the loop had
ended without emptying it, and hence never returned. A loop which has a full
wake-up pipe is awake, and any other error only delays the next iteration.
---
 src/EventLoop.h | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index dbd4e6a..5254480 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -271,11 +271,7 @@ public: /* Methods: */
 
     void stopAsync() noexcept {
         m_stopRequested.store(true, std::memory_order_release);
-        // Wake the loop up, which it already is if the pipe is full:
-        static char const data = '\0';
-        while (::write(m_closePipe.writeEnd, &data, 1u) == -1)
-            if (errno != EINTR)
-                break;
+        wakeUp();
     }
 
     void stop() noexcept {
@@ -360,6 +356,14 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    void wakeUp() noexcept {
+        // The loop is already awake if the pipe is full:
+        static char const data = '\0';
+        while (::write(m_closePipe.writeEnd, &data, 1u) == -1)
+            if (errno != EINTR)
+                break;
+    }
+
     void loopIterationFinish() noexcept
     { m_loopCounter.fetch_add(1u, std::memory_order_release); }
 
@@ -375,23 +379,7 @@ private: /* Methods: */
         }
         if (m_loopCounter.load(std::memory_order_acquire) != start)
             return;
-        static char const data = '\0';
-        for (;;) {
-            auto const w = ::write(m_closePipe.writeEnd, &data, 1u);
-            assert(w <= 1);
-            if (w > 0)
-                break;
-            assert(w == -1);
-            if (errno != EAGAIN
-                && errno != EINTR
-                #if defined(EWOULDBLOCK) && (EWOULDBLOCK != EAGAIN)
-                && errno != EWOULDBLOCK
-                #endif
-                && errno != ENOSPC
-                && errno != EIO
-                && errno != ENOBUFS)
-                break;
-        }
+        wakeUp();
         while (m_loopCounter.load(std::memory_order_acquire) == start) {
             // The loop might not be running, or ending without an iteration:
             if (m_stopMutex.try_lock()) {
-- 
2.43.0


From 43707430b84c03b59e447984ad772cc1f1836b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 39/59] fix: construct empty Optionals from empty Optionals of
 other types

---
 src/Optional.h | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index de0741d..6ee18f3 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -398,7 +398,14 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    Optional(Optional<U> const & v)
+        : Optional()
+    {
+        if (v.hasValue()) {
+            new (std::addressof(this->m_data)) T(*v);
+            this->m_containsValue = true;
+        }
+    }
 
     template <
             typename U = T,
@@ -407,9 +414,14 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+    explicit Optional(Optional<U> const & v)
+        : Optional()
+    {
+        if (v.hasValue()) {
+            new (std::addressof(this->m_data)) T(*v);
+            this->m_containsValue = true;
+        }
+    }
 
     template <
             typename U = T,
@@ -418,7 +430,14 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    Optional(Optional<U> && v)
+        : Optional()
+    {
+        if (v.hasValue()) {
+            new (std::addressof(this->m_data)) T(std::move(*v));
+            this->m_containsValue = true;
+        }
+    }
 
     template <
             typename U = T,
@@ -427,9 +446,14 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+    explicit Optional(Optional<U> && v)
+        : Optional()
+    {
+        if (v.hasValue()) {
+            new (std::addressof(this->m_data)) T(std::move(*v));
+            this->m_containsValue = true;
+        }
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From 75d43f528d1c996d949d81dca9c47e15b7e80e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 40/59] fix: return from and survive self-moves in
 UninitializedDynamicArray's move assignment

---
 src/UninitializedDynamicArray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..a6b2409 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -67,9 +67,11 @@ public: /* Methods: */
     UninitializedDynamicArray & operator=(
                 UninitializedDynamicArray && move) noexcept
     {
-        m_size = move.m_size;
-        m_data = std::move(move.m_data);
+        auto const newSize = move.m_size;
         move.m_size = 0u;
+        m_size = newSize;
+        m_data = std::move(move.m_data);
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 5c3df3c9cf23f13d5d094817ed562b65cc69ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 41/59] fix: make assigning DynamicPackedStructs compile and
 return

---
 src/DynamicPackedStruct.h | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..56182de 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,32 +138,11 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
-    DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
-        if (copy.m_data) {
-            if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
-                    if (void * const newData =
-                            ::operator new(copy.size(), std::nothrow))
-                    {
-                        m_data = newData;
-                    } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
-                            throw std::bad_alloc();
-                    }
-                }
-            } else {
-                m_data = ::operator new(copy.size());
-            }
-            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
-        } else {
-            m_data.reset();
-        }
-        m_sizes = copy.m_sizes;
-    }
+    DynamicPackedStruct & operator=(type const & copy)
+    { return (*this) = type(copy); }
 
     void * data() noexcept { return m_data.get(); }
     void const * data() const noexcept { return m_data.get(); }
-- 
2.43.0


From 320bf136bc5665568eacb4c7aa8d34be655dc1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 42/59] fix: let AlignedAllocator allocate for types with small
 alignments

---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..321e884 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,11 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    // posix_memalign() only accepts multiples of the size of a pointer:
+    constexpr std::size_t alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 1e5a595d4392b4d8393e2dcdfe04bb3d0a8dbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 43/59] fix: do not let sizes overflow in
 AlignedAllocator::allocate()

---
 src/AlignedAllocator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index 321e884..33b86bd 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -21,10 +21,10 @@
 #define SHAREMIND_ALIGNEDALLOCATOR_H
 
 #include <cstdlib>
-/* #include <limits> */
+#include <limits>
 #include <new>
 #include <memory>
-/* #include <type_traits> */
+#include <type_traits>
 /* #include <utility> */
 
 
@@ -118,6 +118,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 1ce87ec4e7fb5965d26ce812808e8650d2b9abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 44/59] fix: append exactly the bits of the other BitVec

---
 src/BitVector.h | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..01f6e29 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -281,27 +281,28 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
+        const size_type old_blocks = num_blocks_ ();
+        const size_type other_blocks = other.num_blocks_ ();
+        const block_type r = bit_index (m_num_bits);
+        resize (m_num_bits + other.m_num_bits);
         if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+            for (size_type i = 0; i < other_blocks; ++ i) {
+                m_blocks[old_blocks + i] = other.m_blocks[i];
             }
         }
         else {
-            assert (! empty ());
-            assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+            const block_type low_bits =
+                    static_cast<block_type>(bit_mask (r) - 1u);
+            for (size_type i = 0; i < other_blocks; ++ i) {
+                const block_type b = other.m_blocks[i];
+                block_type & block = m_blocks[old_blocks + i - 1u];
+                block = static_cast<block_type>((block & low_bits) | (b << r));
+                if (old_blocks + i < num_blocks_ ()) {
+                    m_blocks[old_blocks + i] =
+                            static_cast<block_type>(b >> (bits_per_block() - r));
+                }
+            }
         }
-
-        m_num_bits += other.m_num_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From 2ffbb4a4f0f359b9ded435f4ea60039337958aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 45/59] fix: let BitVec::clear_and_release() clear the vector

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 01f6e29..63aa8e1 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -369,7 +369,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From 61b133af7786f1a4cc461d8dd876650ee6eebcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 46/59] fix: make copying BitVecs compile

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 63aa8e1..3afd075 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(BitVec const & copy) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(BitVec const & copy) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From d065277d73ee9a3afea60b4a673571b5f48caf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 47/59] fix: convert values assigned through UnalignedReference

Assigning a value of another type, or another UnalignedReference, copied bytes
of that object (and possibly beyond it) instead of the value.
---
 src/UnalignedReference.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..a84abd1 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -23,6 +23,7 @@
 #include <cstring>
 #include <memory>
 #include <type_traits>
+#include <utility>
 #include "CopyCv.h"
 
 
@@ -61,7 +62,8 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        T const & value = std::forward<T_>(v);
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From a9ad67aa9bc2ae43c63d8386f19f565eec03636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 48/59] fix: do not return a dangling reference when setting
 fields of DynamicPackedStructs

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..186af8d 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -415,7 +415,7 @@ struct AccumArrayType
     auto set(void * const data, ElemType<I> const & v) const noexcept ->
             typename std::enable_if<
                 TypeTraits<I>::isStatic,
-                decltype(ref<I>(data) = v)
+                typename std::decay<decltype(ref<I>(data) = v)>::type
             >::type
     { return ref<I>(data) = v; }
 
-- 
2.43.0


From f33b7065161eaae23bd09ff640ec1429d1dbee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 49/59] fix: make subtracting UnalignedPointers compile and
 handle negative distances

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..27d8e64 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From 2359569a15a0afb063e40ae739325dd34605bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 50/59] fix: print exceptions with nothing nested in
 verbosePrintException()

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..0007182 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e) // Thrown with nothing to nest
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From 3de0c89b3dcec6bf9d2cebd1b552b77baa7e5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 51/59] fix: hash std::strings like other ranges of characters
 in StringHasher

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From 28a40962a9e84fcd86a94bedbe7afadca4b81055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 52/59] fix: throw in concat() instead of returning truncated
 strings

---
 src/Concat.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Concat.h b/src/Concat.h
index 5c6edf0..b18de04 100644
--- a/src/Concat.h
+++ b/src/Concat.h
@@ -20,6 +20,7 @@
 #ifndef SHAREMIND_CONCAT_H
 #define SHAREMIND_CONCAT_H
 
+#include <ios>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -51,8 +52,12 @@ inline std::string concat(std::string && s) { return std::move(s); }
 inline std::string concat(const std::string & s) { return s; }
 
 template <typename ... T>
-inline std::string concat(T && ... args)
-{ return Detail::concatBase(std::ostringstream(), std::forward<T>(args)...); }
+inline std::string concat(T && ... args) {
+    std::ostringstream oss;
+    // Do not return truncated strings, e.g. when an allocation fails:
+    oss.exceptions(std::ios_base::badbit);
+    return Detail::concatBase(std::move(oss), std::forward<T>(args)...);
+}
 
 } /* namespace sharemind { */
 
-- 
2.43.0


From fd7f7f6723d751986f36186b2a1d4f63c7ebe5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 53/59] fix: search whole StringViews by default in rfind()

---
 src/StringView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..09e02df 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,10 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos) const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos) const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 43ac6cefeaaa783defffb3749ae7501208cefdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 54/59] fix: make StrongTypeSwappable compile

It swapped the results of the nonexistent member function value(), and its
exception specification depended on itself.
---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From 5fa2d52fffb51d4f70d8e5e6b78157dfd753b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 55/59] fix: make size() of reversed built-in arrays compile

---
 src/ReversedRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..238cb37 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -25,6 +25,7 @@
 #include "Iterator.h"
 #include "Range.h"
 #include "RemoveCvref.h"
+#include "Size.h"
 
 
 namespace sharemind {
@@ -139,7 +140,7 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const { return ::sharemind::size(this->m_range); }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From bf06b7948c01a30b9cfde93ceca6a462bfaaf5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 56/59] fix: make shifting uint_t by uint_t compile

as_uint64_t() called min() with arguments of different types.
---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..e6de42d 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = (num_of_bits < 64u) ? num_of_bits : 64u;
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From f4c9906cd170313b37f953c2db00663361c4ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 57/59] fix: do not shift narrow uint_t by 64 bits when
 converting a uint128_t

Converting a uint128_t to a uint_t of at most 64 bits failed an assertion.
---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index e6de42d..e0d973b 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -813,8 +813,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (N > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From b304c82cfd68b68e804085309e206926baea0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 58/59] fix: divide integers of one bit without shifting them

Dividing uint_t<1> failed the assertion that shifts are less than the width.
---
 src/uint_t.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index e0d973b..e3b4ed3 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -561,17 +561,14 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
-        uint_t bit = 1;
-        bit <<= (num_of_bits - 1);
-        while (bit != 0) {
-            rem <<= 1;
-            rem[0] |= !!(x & bit);
+        for (std::size_t i = num_of_bits; i --> 0u; ) {
+            if (num_of_bits > 1u)
+                rem <<= 1;
+            rem[0] |= bool(x[i]);
             if (rem >= y) {
                 rem -= y;
-                quot |= bit;
+                quot[i] = true;
             }
-
-            bit >>= 1;
         }
 
         const div_t result = { quot, rem };
-- 
2.43.0


From cd1c89a716e930a9aa2e6e622942ac607b6bef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 59/59] fix: free the buffer when printing a uint_t throws

Streaming a zero of more than 765 bits leaked the buffer when the stream threw.
---
 src/uint_t.h | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index e3b4ed3..133b36e 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -28,6 +28,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <memory>
 #include <ostream>
 #include <stdexcept>
 #include <type_traits>
@@ -586,10 +587,9 @@ public: /* Methods: */
         const char upper[] = "0123456789ABCDEF";
 
         char staticBuffer[dynamicBuffer ? 1 : buff_size];
-        char* buff = &staticBuffer[0];
-        if (dynamicBuffer) {
-            buff = new char[buff_size];
-        }
+        std::unique_ptr<char[]> heapBuffer(
+                    dynamicBuffer ? new char[buff_size] : nullptr);
+        char* buff = dynamicBuffer ? heapBuffer.get() : &staticBuffer[0];
 
         if (x == 0) {
             os << '0';
@@ -622,20 +622,7 @@ public: /* Methods: */
                 buff[-- i] = '+';
             }
 
-            try {
-                os.write (&buff[i], buff_size - i);
-            }
-            catch (...) {
-                if (dynamicBuffer) {
-                    delete [] buff;
-                }
-
-                throw;
-            }
-        }
-
-        if (dynamicBuffer) {
-            delete [] buff;
+            os.write (&buff[i], buff_size - i);
         }
 
         return os;
-- 
2.43.0

