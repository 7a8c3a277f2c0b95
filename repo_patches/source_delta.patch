From cfa6f179dbec6d4d1e03e4a1f05e9b861b4747ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 01/81] fix: Wake all threads waiting on the same future

Future::wait() and its timed variants are const, hence several threads may wait
on the same future. Setting the result woke only one of them and left the others
blocked forever.
---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..0f83f01 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -135,7 +135,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -167,7 +167,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From a4170f97a5f1d2e6d5d27c5e4a2bd214ce344d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 02/81] fix: Destroy the value held by the shared state of a
 future

The value was constructed into the raw storage of the shared state, but never
destroyed, leaking whatever it (or its moved-from remains) owned.
---
 src/Future.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 0f83f01..db0f2f7 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -134,6 +134,7 @@ struct SharedState {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
+                    hasValue = true;
                     isSet = true;
                     cond.notify_all();
                     return std::move(m_continuation);
@@ -141,6 +142,11 @@ struct SharedState {
             continuation->run();
     }
 
+    ~SharedState() noexcept {
+        if (hasValue)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     T takeValue() {
         auto const lock(waitReadyLock());
         if (exception)
@@ -151,6 +157,7 @@ struct SharedState {
 /* Fields: */
 
     typename std::aligned_storage<sizeof(T), alignof(T)>::type m_data;
+    bool hasValue = false;
 
 };
 
-- 
2.43.0


From 6d97f088d655295e32c57e9c1c39a059cc855913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 03/81] fix: Break the overwritten promise on move assignment

Move-assigning to a promise which had not been fulfilled silently dropped its
shared state, and everyone waiting for the respective future waited forever.
Now the overwritten promise is broken as it would be when destroyed.
---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index db0f2f7..6a970d1 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -414,7 +414,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From 2bd7041a815a721dbb2f1d55656ee9a6cc72d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 04/81] fix: Report exceptions from constructing the value of a
 promise

Promise::emplaceValue() and setValue() are only noexcept if the construction of
the value is, but an exception from the constructor hit a noexcept lambda and
terminated the program. Now it is propagated and the promise stays pending.
---
 src/Future.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 6a970d1..cf71a38 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -130,7 +130,7 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_) -> ContinuationPtr {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -477,8 +477,13 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        SharedStatePtr state(std::move(m_state));
+        try {
+            state->emplaceValue(std::forward<Args>(args)...);
+        } catch (...) {
+            m_state = std::move(state);
+            throw;
+        }
     }
 
     void setValue(T && v)
-- 
2.43.0


From 21c696f28fcb123dea12c1f3fc37de60516a5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 05/81] fix: Make PackagedTask usable with void results and
 reset()

Neither running a PackagedTask<void(...)> nor calling PackagedTask::reset()
compiled.
---
 src/Future.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index cf71a38..5f72066 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -595,7 +595,7 @@ public: /* Methods: */
     template <typename ... Args>
     void operator()(Args && ... args) noexcept {
         try {
-            m_promise.setValue(m_function(std::forward<Args>(args)...));
+            run(m_promise, std::forward<Args>(args)...);
         } catch (...) {
             m_promise.setException(std::current_exception());
         }
@@ -605,7 +605,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
@@ -615,6 +618,18 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    template <typename T, typename ... Args>
+    void run(Promise<T> & promise, Args && ... args)
+    { promise.setValue(m_function(std::forward<Args>(args)...)); }
+
+    template <typename ... Args>
+    void run(Promise<void> & promise, Args && ... args) {
+        m_function(std::forward<Args>(args)...);
+        promise.setReady();
+    }
+
+private: /* Fields: */
+
     Promise<R> m_promise;
     Function m_function;
 
-- 
2.43.0


From 1a7b1388d4b904f71c7badca66f70d17acbbde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 06/81] fix: Report failing constructions in
 SharedResourceMap::getResource()

An exception from the resource constructor hit a noexcept constructor and
terminated the program instead of reaching the handler in getResource().
---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From 865e491389d581c535151c4b5555e5d6ec45390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 07/81] fix: Don't deadlock in SharedResourceMap::forEach()

If the last other handle to a resource was released while forEach() visited the
resource, the handle given to the visitor became the last one and its deleter
tried to lock the mutex already held by forEach().
---
 src/SharedResourceMap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..2d7292f 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,17 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // Any of the pointers acquired here might turn out to be the last
+            // one, hence these must not be released with the mutex locked:
+            std::vector<std::shared_ptr<Value> > ptrs;
             std::unique_lock<std::mutex> lock(m_mutex);
-            for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+            ptrs.reserve(m_data.size());
+            for (auto const & v : m_data) {
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    ptrs.emplace_back(ptr);
                     f(v.first, std::move(ptr));
+                }
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From 0384b802f3d2294dc4b7ba0312bfcb50db7fe9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 08/81] fix: Release resources of SharedResourceMap exactly
 once and after their last use

---
 src/SharedResourceMap.h | 53 ++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 2d7292f..388b17d 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -22,6 +22,7 @@
 
 #include <cassert>
 #include <condition_variable>
+#include <cstddef>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -69,11 +70,42 @@ private: /* Types: */
         std::weak_ptr<Value> weakPtr;
         Key key;
         std::shared_ptr<Value> realPtr;
+        std::size_t numDeletersPending = 0u;
 
     };
 
     using Map_ = std::map<Key, std::shared_ptr<ValueObj_> >;
 
+    struct Deleter_ {
+
+    /* Methods: */
+
+        void operator()(Value * const) noexcept {
+            if (!valueObj)
+                return;
+            // The deleter itself outlives this call as long as there are weak
+            // pointers, hence break the cycle via ValueObj_::weakPtr:
+            auto const obj(std::move(valueObj));
+            if (auto cPtr = obj->container.lock()) {
+                Inner & c = *static_cast<Inner *>(cPtr.get());
+                std::lock_guard<std::mutex> const guard(c.m_mutex);
+                // The resource might have been acquired again before the mutex
+                // was locked. It is only released by the last such deleter, so
+                // that all uses of the resource happen before its release:
+                if (--(obj->numDeletersPending) == 0u) {
+                    obj->realPtr.reset();
+                    c.m_data.erase(obj->key);
+                    c.m_cond.notify_all();
+                }
+            }
+        }
+
+    /* Fields: */
+
+        std::shared_ptr<ValueObj_> valueObj;
+
+    };
+
     struct Inner final: InnerBase {
 
     /* Methods: */
@@ -166,23 +198,12 @@ public: /* Methods: */
     {
         static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
         {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
-                        if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
-                        {
-                            valueObj.reset();
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
-                    }
-                });
+            std::shared_ptr<Value> r(valueObj->realPtr.get(), Deleter_());
             valueObj->weakPtr = r;
+            // Only now arm the deleter, because it locks the mutex and would
+            // also have been called if the construction above had failed:
+            ++(valueObj->numDeletersPending);
+            std::get_deleter<Deleter_>(r)->valueObj = std::move(valueObj);
             return r;
         };
 
-- 
2.43.0


From f8ca4a687617a1524c26f83ae3a1606ef86f6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 09/81] fix: Report pool exhaustion in
 IdentifierPool::reserve()

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From e11755a6119e4ff9fe00934f63cdde367cea3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 10/81] fix: Throw documented exception from identifier pools
 of strong types

---
 src/IdentifierPool.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..95308f7 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -179,15 +179,12 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From 0d87fc07fc7c26b386ed0626d07ac20f6470f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 11/81] fix: Don't release identifiers twice on self-move of
 their holders

---
 src/IdentifierPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 95308f7..cf77833 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,10 +116,12 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
-            if (m_state)
-                m_state->recycle(m_id);
-            m_id = move.m_id;
-            m_state = std::move(move.m_state);
+            if (this != &move) {
+                if (m_state)
+                    m_state->recycle(m_id);
+                m_id = move.m_id;
+                m_state = std::move(move.m_state);
+            }
             return *this;
         }
 
-- 
2.43.0


From 8a0cbc8ad85170aa96a889158ba3265708701f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 12/81] fix: Respect time limits of thread pool workers next to
 other workers

---
 src/ThreadPool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..50d9473 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -22,6 +22,7 @@
 
 #include <atomic>
 #include <cassert>
+#include <chrono>
 #include <condition_variable>
 #include <memory>
 #include <mutex>
@@ -211,7 +212,7 @@ private: /* Methods: */
     {}
 
     Task waitAndPop() noexcept {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::lock_guard<std::timed_mutex> const headGuard(m_headMutex);
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -238,7 +239,10 @@ private: /* Methods: */
     std::pair<Task, Status> waitAndPop(
             std::chrono::time_point<Clock, Duration> const & timepoint) noexcept
     {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::unique_lock<std::timed_mutex> const headLock(m_headMutex,
+                                                          timepoint);
+        if (!headLock.owns_lock())
+            return {Task(), Timeout};
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -271,7 +275,7 @@ private: /* Methods: */
 
 private: /* Fields: */
 
-    std::mutex m_headMutex;
+    std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
     TaskWrapper * m_tail;
-- 
2.43.0


From 5cdd85141f51b6b58825cc2db338d45e23f66625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 13/81] fix: Don't leak the callable of a task when out of
 memory

---
 src/ThreadPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 50d9473..6a13ea1 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -270,7 +270,8 @@ private: /* Methods: */
     template <typename TaskSubclass>
     static Task createTask_(TaskSubclass * const task) {
         assert(task);
-        return Task(new TaskWrapper(std::unique_ptr<TaskBase>(task)));
+        std::unique_ptr<TaskBase> value(task);
+        return Task(new TaskWrapper(std::move(value)));
     }
 
 private: /* Fields: */
-- 
2.43.0


From 212ffb2efb2cc56d27451607d0bc1ca121d59f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 14/81] fix: Don't leak when the construction of a thread pool
 fails

---
 src/ThreadPool.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 6a13ea1..42e887e 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -145,7 +145,7 @@ public: /* Methods: */
 
 protected: /* Methods: */
 
-    ThreadPool() : ThreadPool(new TaskWrapper(nullptr)) {}
+    ThreadPool() {}
 
     void workerThread() {
         while (Task task = waitAndPop()) {
@@ -206,11 +206,6 @@ protected: /* Methods: */
 
 private: /* Methods: */
 
-    ThreadPool(TaskWrapper * const emptyTaskWrapper)
-        : m_tail(emptyTaskWrapper)
-        , m_head(emptyTaskWrapper)
-    {}
-
     Task waitAndPop() noexcept {
         std::lock_guard<std::timed_mutex> const headGuard(m_headMutex);
         assert(m_head);
@@ -279,8 +274,8 @@ private: /* Fields: */
     std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
-    TaskWrapper * m_tail;
-    Task m_head;
+    Task m_head{new TaskWrapper(nullptr)};
+    TaskWrapper * m_tail{m_head.get()};
     bool m_stop = false;
 
 }; /* class ThreadPool { */
-- 
2.43.0


From a112e60d4025f52073c222642114afff44d403b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 15/81] fix: Order element transfer in
 MpscWaitFreeSemiIntrusiveQueue

A producer linking its node to one just pushed by another producer raced with
the initialization of the latter, and the consumer read data of elements not
synchronized with the producer.
---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 03c3e31d28c5f925a2353ec3de1fa76c273c66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 16/81] fix: Make the queries of AtomicFlags compile

---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..0450828 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From e459db989ba6a638d95e4a76b92d0aa18bd65e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 17/81] fix: Make Flags and AtomicFlags usable with integral
 types

---
 src/AtomicFlags.h | 5 +++--
 src/Flags.h       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 0450828..b8f0d13 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -23,6 +23,7 @@
 #include <atomic>
 #include <type_traits>
 #include "Flags.h"
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -187,8 +188,8 @@ using AtomicFlags =
             EnumOrIntegral,
                 typename std::conditional<
                     std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                    TypeIdentity<EnumOrIntegral>,
+                    std::underlying_type<EnumOrIntegral>>::type::type>;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..ef87ca7 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -21,6 +21,7 @@
 #define SHAREMIND_FLAGS_H
 
 #include <type_traits>
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -104,8 +105,8 @@ using Flags =
             EnumOrIntegral,
             typename std::conditional<
                 std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                TypeIdentity<EnumOrIntegral>,
+                std::underlying_type<EnumOrIntegral>>::type::type>;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From 537c90eb0aee2f15269dd3952d8679fe119158c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 18/81] fix: Don't fail or spin on an interrupted or empty
 wake-up pipe

An assertion failed when reading from the pipe of the EventLoop was interrupted,
and the loop was stuck reading when the pipe had held exactly the number of
bytes read at once.
---
 src/EventLoop.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..825b9c4 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,14 +328,21 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
-                            if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
-                                return; // Error or stop signalled
+                            if (rd == 0) // HUP or EOF
+                                return; // Stop signalled
+                            assert(rd == -1);
+                            if (errno == EAGAIN) // Nothing left to flush
+                                goto Sharemind_EventLoop_run_continue;
+                            if (errno != EINTR)
+                                return; // Error
                         } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
-                        { goto Sharemind_EventLoop_run_continue; }
+                        {
+                            goto Sharemind_EventLoop_run_continue;
+                        } else {
+                            assert(static_cast<std::size_t>(rd)
+                                   == DISCARD_SIZE);
+                        }
                     }
                 }
                 handleEvent(*it);
-- 
2.43.0


From 3d8f49ecffd3d9ab2f4837091a6227ccc3397bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 19/81] fix: Allow several threads to stop an EventLoop at the
 same time

The descriptor of the pipe was accessed without synchronization and could be
closed twice or written to after it had been closed (and possibly reused).
---
 src/EventLoop.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 825b9c4..9ca1043 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -157,15 +157,15 @@ private: /* Types: */
 
         ~Pipe() noexcept {
             ::close(readEnd);
-            if (readEnd != writeEnd)
-                ::close(writeEnd);
+            ::close(writeEnd);
         }
 
+        /* Closes the write end of the pipe, but leaves its descriptor open
+           (referring to the read end) because other threads might still be
+           using or also closing it. */
         void writeEndClose() noexcept {
-            if (writeEnd == readEnd)
-                return;
-            ::close(writeEnd);
-            writeEnd = readEnd;
+            while (::dup3(readEnd, writeEnd, O_CLOEXEC) == -1
+                   && (errno == EINTR || errno == EBUSY));
         }
 
     /* Fields: */
-- 
2.43.0


From d0deb0bf15f44ba12fcf1fea9ae59dd295573c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 20/81] fix: Wait for the loop iteration to end exactly as long
 as needed

Waiting for the end of an EventLoop iteration returned early when stopping had
been requested, although an event handler was still running. It never returned
if the loop was not running, but several threads were waiting.
---
 src/EventLoop.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 9ca1043..0e35cf3 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -391,10 +391,15 @@ private: /* Methods: */
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
-                return;
+                break; // Stop signalled, but run() might not have returned yet
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            if (m_stopMutex.try_lock()) { // Not running (any more)
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From 4898dedcc6b13b30b2072dd41844b5fe0b0c18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 21/81] fix: Don't make refused items of
 IntrusiveUnorderedSharedItemSet own themselves

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From fa9caeaf69efbe9ed86444c9eedc499999589788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 22/81] fix: Hash strings alike in StringHasher whatever Boost
 version is used

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From e11fb7a05bf21e9735ca4f0d259870f1a40f09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 23/81] fix: Don't ignore characters after a null in
 comparisons of StringHasher

---
 src/StringHasher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index b6a9d09..ca16058 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cstddef>
-#include <cstring>
 #include <iterator>
 #include <string>
 #include <utility>
@@ -111,11 +110,11 @@ struct StringHasher {
 
         bool operator()(char const * const a, std::string const & b)
                 const noexcept
-        { return std::strcmp(a, b.c_str()) == 0; }
+        { return b == a; }
 
         bool operator()(std::string const & a, char const * const b)
                 const noexcept
-        { return std::strcmp(a.c_str(), b) == 0; }
+        { return a == b; }
 
     };
 
-- 
2.43.0


From 273651d1c9e7b76e483396efe48afbb44a942ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 24/81] fix: Make UnorderedMap::insert_or_assign() with a hint
 return an iterator

---
 src/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..a9dfcfd 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -572,7 +572,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From 018216b9eeb6714194b392e32cbdfdc20928792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 25/81] fix: Make UnorderedMap assignable from initializer
 lists

---
 src/UnorderedMap.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a9dfcfd..59845bd 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -425,12 +425,12 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(values,
+                            values.size(),
+                            m_hasher,
+                            m_pred,
+                            m_allocator);
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
-- 
2.43.0


From 42616b5b969b23a55ad0b70fc7a258f74b9babea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 26/81] fix: Make copies of UnorderedMap independent of the
 original

---
 src/UnorderedMap.h | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index 59845bd..cd3882d 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -368,11 +368,10 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
         , m_allocator(
             std::allocator_traits<allocator_type>
                 ::select_on_container_copy_construction(copy.m_allocator))
-    {}
+    { m_container = cloneContainer(copy.m_container, m_allocator); }
 
     UnorderedMap(UnorderedMap && move) = default;
 
@@ -383,7 +382,7 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy, allocator_type const & allocator)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
+        , m_container(cloneContainer(copy.m_container, allocator))
         , m_allocator(allocator)
     {}
 
@@ -400,13 +399,16 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
-            m_hasher = rhs.m_hasher;
-            m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
+            auto newAllocator(m_allocator);
             Detail::UnorderedMap::PropagateAllocator<
                         std::allocator_traits<allocator_type>
                             ::propagate_on_container_copy_assignment::value
-                    >::copy(m_allocator, rhs.m_allocator);
+                    >::copy(newAllocator, rhs.m_allocator);
+            auto newContainer(cloneContainer(rhs.m_container, newAllocator));
+            m_hasher = rhs.m_hasher;
+            m_pred = rhs.m_pred;
+            m_container = std::move(newContainer);
+            m_allocator = std::move(newAllocator);
         }
         return *this;
     }
@@ -970,6 +972,20 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    /** \returns a container holding copies of the values in the given one. */
+    static InnerContainer cloneContainer(InnerContainer const & container,
+                                         allocator_type const & allocator)
+    {
+        InnerContainer r(container.bucket_count());
+        r.max_load_factor(container.max_load_factor());
+        for (auto const & v : container)
+            r.emplace(v.first,
+                      std::allocate_shared<value_type>(allocator, *v.second));
+        return r;
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From 8d652e99a7c03dcae14ee1abd93a99d765a0957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 27/81] fix: Make the swap() of two Optionals usable

---
 src/Optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..cd33fe5 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -673,9 +673,10 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
-swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
+typename std::enable_if<
+    std::is_move_constructible<T>::value && IsSwappable<T>::value,
+    void
+>::type swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
 
 template <typename T>
 constexpr Optional<typename std::decay<T>::type> makeOptional(T && v)
-- 
2.43.0


From 2eb594339411114b94b6265248bece635e9e8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 28/81] fix: Make Optional assignable from other types of
 Optional

---
 src/Optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Optional.h b/src/Optional.h
index cd33fe5..6e768ba 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -324,6 +324,9 @@ class Optional
 
     static_assert(std::is_object<T>::value, "");
 
+    template <typename U, SHAREMIND_REQUIRE_CONCEPTS(Destructible(U))>
+    friend class Optional;
+
 private: /* Types: */
 
     template <typename U, bool isExplicit>
-- 
2.43.0


From 491650e6b1a25e1c945a1e5b0930073f150177df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 29/81] fix: Construct the value of an Optional from bool

---
 src/Optional.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 6e768ba..6f39c96 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -313,6 +313,8 @@ template <typename T> struct EnableMoveCtor<T, false> {
     EnableMoveCtor & operator=(EnableMoveCtor &&) = default;
 };
 
+#undef SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH
+
 } /* namespace Optional { */
 } /* namespace Detail { */
 
@@ -365,9 +367,14 @@ private: /* Types: */
 
 public: /* Methods: */
 
-    SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH(Optional,
-                                           Detail::Optional::MoveAssignmentBase)
-    #undef SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH
+    constexpr Optional() noexcept = default;
+
+    template <typename ... Args>
+    constexpr explicit Optional(InPlace ip, Args && ... args)
+            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+        : Detail::Optional::MoveAssignmentBase<T>(std::move(ip),
+                                                  std::forward<Args>(args)...)
+    {}
 
     constexpr Optional(NullOption) noexcept : Optional() {}
 
-- 
2.43.0


From b573fed42fc63ee3eb447ae4846df09a1de32d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 30/81] fix: Convert empty Optionals to empty Optionals

---
 src/Optional.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 6f39c96..54a110e 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -405,7 +405,11 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    constexpr Optional(Optional<U> const & v) : Optional()
+    {
+        if (v)
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -415,8 +419,11 @@ public: /* Methods: */
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
     explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+        : Optional()
+    {
+        if (v)
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -425,7 +432,11 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    constexpr Optional(Optional<U> && v) : Optional()
+    {
+        if (v)
+            this->emplace(std::move(*v));
+    }
 
     template <
             typename U = T,
@@ -435,8 +446,11 @@ public: /* Methods: */
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
     explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+        : Optional()
+    {
+        if (v)
+            this->emplace(std::move(*v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From ad5e91f3b1a9f24a2900ccd8a65d3721441beae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 31/81] fix: Don't destroy the value of an Optional when its
 construction fails

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 54a110e..fb1e218 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>(false)
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>(false)
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From d624248cc3b943fd1ab4e73950665541a909e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 32/81] fix: Don't terminate when Optional::emplace() with a
 list fails

---
 src/Optional.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index fb1e218..f647815 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -584,7 +584,12 @@ public: /* Methods: */
 
     template <typename U, typename ... Args>
     auto emplace(std::initializer_list<U> il, Args && ... args)
-            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+            noexcept(
+                std::is_nothrow_constructible<
+                    T,
+                    std::initializer_list<U> &,
+                    Args &&...
+                >::value)
             -> typename std::enable_if<
                     std::is_constructible<
                         T,
-- 
2.43.0


From 10bf68c2f2d589f0e7c05d1bca7b30e45e58314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 33/81] fix: Swap the values of Optionals with their own swap()

---
 src/Optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index f647815..6ef045d 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -621,7 +621,8 @@ public: /* Methods: */
                 };
         if (rhs.m_containsValue) {
             if (this->m_containsValue) {
-                std::swap(this->m_data, rhs.m_data);
+                using std::swap;
+                swap(this->m_data, rhs.m_data);
             } else {
                 doMove(rhs, *this);
             }
-- 
2.43.0


From da868d0f7aaf26af1592dce2764f73695a36431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 34/81] fix: Make BitVec copyable as needed by its operators

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..5c105b8 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(const BitVec& other) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(const BitVec& other) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From 731b477434789f7c2bcbf4e01efa0ef1605a897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 35/81] fix: Append the right bits to BitVecs which end within
 a block

---
 src/BitVector.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 5c105b8..5823c66 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -285,27 +285,30 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
+        const size_type r = m_num_bits % bits_per_block();
+        const size_type first = m_num_bits / bits_per_block();
+        const size_type num_bits = m_num_bits + other.m_num_bits;
+        /* Use indexes only, because other might be *this: */
+        const size_type num_other_blocks = other.m_blocks.size ();
+        m_blocks.resize (compute_block_count (num_bits));
         if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+            for (size_type i = 0; i < num_other_blocks; ++ i) {
+                m_blocks[first + i] = other.m_blocks[i];
             }
         }
         else {
-            assert (! empty ());
-            assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+            m_blocks[first] &= static_cast<block_type>(bit_mask (r) - 1);
+            for (size_type i = 0; i < num_other_blocks; ++ i) {
+                const block_type b = other.m_blocks[i];
+                m_blocks[first + i] |= static_cast<block_type>(b << r);
+                if (first + i + 1 < m_blocks.size ()) {
+                    m_blocks[first + i + 1] =
+                        static_cast<block_type>(b >> (bits_per_block() - r));
+                }
+            }
         }
 
-        m_num_bits += other.m_num_bits;
+        m_num_bits = num_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From 280f8226c48dde915ad0cc3b071eb9bac3796b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 36/81] fix: Reset the size in BitVec::clear_and_release()

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 5823c66..aa57cd0 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -375,7 +375,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From b9de04306832f7d364eed3e6fea1b25f2c353772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 37/81] fix: Make uint_t shiftable by other uint_t values

min() was called with arguments of different types, hence none of the
operators which take the shift amount as an uint_t compiled.
---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..8b5d9bb 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = num_of_bits < 64u ? num_of_bits : 64u;
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From 1b8d36e981ec3dd64939f39c973cf5563127b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 38/81] fix: Don't shift uint_t values of at most 64 bits by 64
 bits

Converting an uint128_t to such an uint_t failed an assertion, or without
assertions, wrote past the end of the object.
---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 8b5d9bb..21a244c 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -813,8 +813,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (num_of_bits > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From dd91339d84a7e3c704a97321f0b231b7b4b3cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 39/81] fix: Don't overflow int when multiplying uint_t with 16
 bit blocks

The blocks were promoted to int, whose overflow is undefined behaviour.
---
 src/uint_t.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 21a244c..cc655a9 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -480,7 +480,10 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            // Small blocks are promoted to int, the product might not fit:
+            uint_t result = static_cast<block_t>(1u
+                                                 * x.least_significant_block()
+                                                 * y.least_significant_block());
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From a710b68e0ad47cc89d5e33531f0708ae983cec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 40/81] fix: Don't fail an assertion when dividing one bit
 uint_t values

---
 src/uint_t.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index cc655a9..8fa39fe 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -564,17 +564,13 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
-        uint_t bit = 1;
-        bit <<= (num_of_bits - 1);
-        while (bit != 0) {
-            rem <<= 1;
-            rem[0] |= !!(x & bit);
+        for (std::size_t i = num_of_bits; i --> 0u; ) {
+            rem += rem; // Not shifted by 1 because num_of_bits might be 1
+            rem[0] |= static_cast<bool>(x[i]);
             if (rem >= y) {
                 rem -= y;
-                quot |= bit;
+                quot[i] = true;
             }
-
-            bit >>= 1;
         }
 
         const div_t result = { quot, rem };
-- 
2.43.0


From 472ce49cb141f5764e9411cadaa2efe707f8327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 41/81] fix: Don't leak memory if printing a wide uint_t of
 value 0 fails

---
 src/uint_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 8fa39fe..cde0252 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -584,6 +584,9 @@ public: /* Methods: */
         static constexpr std::size_t max_static_buffer_size = 256u;
         static constexpr bool dynamicBuffer = buff_size > max_static_buffer_size;
 
+        if (x == 0)
+            return os << '0';
+
         const char lower[] = "0123456789abcdef";
         const char upper[] = "0123456789ABCDEF";
 
@@ -593,10 +596,7 @@ public: /* Methods: */
             buff = new char[buff_size];
         }
 
-        if (x == 0) {
-            os << '0';
-        }
-        else {
+        {
             uint_t base = 10;
             const char* table = lower;
             if (os.flags () & std::ios::hex) base = 16;
-- 
2.43.0


From fa4edcdcfd27196a4b2a63f7f444d5db507f7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 42/81] fix: Search StringViews backwards from their ends by
 default

The default position of rfind() for strings was the very beginning, so
that only prefixes were found.
---
 src/StringView.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..976a93f 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,12 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)
+            const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos)
+            const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From ed93bbf739dbc5db05a5e26ca822a2ba75f420c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 43/81] fix: Don't move from the lvalue arguments of concat()

Of the arguments of concat() all but the last one were printed as
rvalues, even the ones which the caller still owns.
---
 src/Concat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Concat.h b/src/Concat.h
index 5c6edf0..bf9d0c4 100644
--- a/src/Concat.h
+++ b/src/Concat.h
@@ -39,7 +39,7 @@ inline std::string concatBase(std::ostringstream && oss,
                               Arg && arg,
                               Args && ... args)
 {
-    oss << std::move(arg);
+    oss << std::forward<Arg>(arg);
     return concatBase(std::move(oss), std::forward<Args>(args)...);
 }
 
-- 
2.43.0


From 69ca75cefd078a844ad7a63d37f9925fc631f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 44/81] fix: Make reversed arrays measurable

Arrays have no size() method.
---
 src/ReversedRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..85d1da0 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -139,7 +139,7 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const { return sharemind::size(this->m_range); }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From 130d1ff215f23770f83c170d843b3c338a09d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 45/81] fix: Make measureRange() unambiguous with
 ReversedRange.h

When ReversedRange.h was included, ranges which can be measured by both
their iterators and their reverse iterators couldn't be measured.
---
 src/ReversedRange.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 85d1da0..ed66af1 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -117,6 +117,7 @@ template <typename T,
           SHAREMIND_REQUIRES_CONCEPTS(
                 Not(SizedRange(T)),
                 Not(SizedReversedRange(T)),
+                Not(All(BoundedRange(T), RandomAccessRange(T))),
                 BoundedReversedRange(T),
                 RandomAccessReversedRange(T))>
 auto measureRange(T && t)
-- 
2.43.0


From 327c9d62cbe6cbfb351ef7ce5fa47db5d67b771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 46/81] fix: Make swap() of StrongTypeSwappable types compile

---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From 73c33d0f68b246e5aba66909b91333e9701e2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 47/81] fix: Assign values, not representations, through
 unaligned references

Assigning a value of another type convertible to T copied sizeof(T) bytes of
the representation of that other value, which is wrong for all but identical
types and reads out of bounds for smaller ones. In particular, assigning one
unaligned reference to another stored the bytes of its internal pointer, or
did not compile.
---
 src/UnalignedReference.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..5a11ee4 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -46,6 +46,8 @@ public: /* Methods: */
         : m_unalignedData(unalignedData)
     {}
 
+    UnalignedReference(UnalignedReference const &) noexcept = default;
+
     operator typename std::remove_cv<T>::type () const noexcept {
         typename std::remove_cv<T>::type v;
         /** \todo Implement memcpy for any void volatile and remove the relevant
@@ -61,10 +63,16 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        // Converts to T first, because v might be of some other type:
+        T const & value = v;
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
+    /** Assigns the referred-to value, as references do. */
+    type & operator=(type const & other) noexcept
+    { return operator=(static_cast<T>(other)); }
+
 private: /* Fields: */
 
     CopyCv_t<void, T> * const m_unalignedData;
-- 
2.43.0


From d2ca354c5a80b51a07e805755d5e9093f51fa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 48/81] fix: Make distances and negative offsets of
 UnalignedPointer work

Subtracting two pointers did not compile (the befriended operator- was another
function), and would have divided negative distances by an unsigned size. The
difference type was unsigned, so that moving by negative offsets relied on
overflowing pointer arithmetic.
---
 src/UnalignedPointer.h | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..ab015a4 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -122,7 +129,7 @@ public: /* Types: */
 
     using type = UnalignedPointer<T>;
 
-    using difference_type = std::size_t;
+    using difference_type = std::ptrdiff_t;
     using value_type = T;
     using reference = UnalignedReference<T>;
 
@@ -161,25 +168,30 @@ public: /* Methods: */
     }
 
     type & operator+=(difference_type const n) noexcept {
-        m_ptr = ptrAdd(m_ptr, sizeof(T) * n);
+        m_ptr = ptrAdd(m_ptr, bytes(n));
         return *this;
     }
 
     type & operator-=(difference_type const n) noexcept {
-        m_ptr = ptrSub(m_ptr, sizeof(T) * n);
+        m_ptr = ptrSub(m_ptr, bytes(n));
         return *this;
     }
 
     type operator-(difference_type const n) const noexcept
-    { return ptrSub(m_ptr, sizeof(T) * n); }
+    { return ptrSub(m_ptr, bytes(n)); }
 
     reference operator[](difference_type const n) const noexcept
-    { return ptrAdd(m_ptr, sizeof(T) * n); }
+    { return ptrAdd(m_ptr, bytes(n)); }
 
     explicit operator bool() const noexcept { return m_ptr; }
 
     operator CopyCv_t<void, T> *() const noexcept { return m_ptr; }
 
+private: /* Methods: */
+
+    constexpr static difference_type bytes(difference_type const n) noexcept
+    { return static_cast<difference_type>(sizeof(T)) * n; }
+
 private: /* Fields: */
 
     CopyCv_t<void, T> * m_ptr;
@@ -226,19 +238,22 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
         UnalignedPointer<T> const & p,
         typename UnalignedPointer<T>::difference_type const n) noexcept
-{ return ptrAdd(p.m_ptr, sizeof(T) * n); }
+{ return ptrAdd(p.m_ptr, UnalignedPointer<T>::bytes(n)); }
 
 template <typename T>
 UnalignedPointer<T> operator+(
         typename UnalignedPointer<T>::difference_type const n,
         UnalignedPointer<T> const & p) noexcept
-{ return ptrAdd(p.m_ptr, sizeof(T) * n); }
+{ return p + n; }
 
 } /* namespace sharemind { */
 
-- 
2.43.0


From 71597aaedad3f3bdeffb440ba5ec2f17518da099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 49/81] fix: Make minSizeInBytes() of packed structures compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From acee9d37df2fc2da84e748bb2bf922fe98fa7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 50/81] fix: Resolve the ambiguity of PackedStructAccessor's
 ref(), ptr() and voidPtr()

Mutable accessors inherited both the const and the mutable variants of these
methods as equally good overloads, hence any use of them failed to compile.
The end of the structure is now also available as a mutable pointer.
---
 src/PackedStructAccessor.h |  2 +-
 src/PackingInfo.h          | 30 +++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/PackedStructAccessor.h b/src/PackedStructAccessor.h
index 770596e..cfff98f 100644
--- a/src/PackedStructAccessor.h
+++ b/src/PackedStructAccessor.h
@@ -65,7 +65,7 @@ public: /* Methods: */
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(Ts...)
     SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(const,Ts...)
 
     void * data() const noexcept { return m_data; }
diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index bf727d6..625dabd 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -154,7 +154,8 @@ struct PackingInfo {
     template <std::size_t I> using ConstPointerType = \
             typename PackingInfo<__VA_ARGS__>::template ConstPointerType<I>;
 
-#define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
+/** The read-only methods which classes providing only mutable access have. */
+#define SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(...) \
     constexpr static std::size_t size() noexcept \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t staticSize() \
@@ -170,28 +171,17 @@ struct PackingInfo {
     constexpr static bool hasDynamicFields() \
     { return PackingInfo<__VA_ARGS__>::hasDynamicFields(); } \
     template <std::size_t I> \
-    void const * voidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    template <std::size_t I> \
     void const * constVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    void const * endVoidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     void const * endConstVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     template <std::size_t I> \
-    ConstPointerType<I> ptr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
-    template <std::size_t I> \
     ConstPointerType<I> constPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
     template <std::size_t I> \
     ConstReferenceType<I> cref() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
     template <std::size_t I> \
-    ConstReferenceType<I> ref() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
-    template <std::size_t I> \
     ElemType<I> get() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template get<I>(data()); } \
     bool operator==(type const & rhs) const noexcept \
@@ -199,11 +189,25 @@ struct PackingInfo {
     bool operator!=(type const & rhs) const noexcept \
     { return std::memcmp(data(), rhs.data(), staticSize()) != 0; }
 
+#define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(__VA_ARGS__) \
+    template <std::size_t I> \
+    void const * voidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
+    void const * endVoidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
+    template <std::size_t I> \
+    ConstPointerType<I> ptr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstReferenceType<I> ref() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); }
+
 #define SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(maybeConst,...) \
     template <std::size_t I> \
     void * voidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::template voidPtr<I>(data()); } \
-    void * endVoidPtr() noexcept \
+    void * endVoidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::endVoidPtr(data()); } \
     template <std::size_t I> \
     PointerType<I> ptr() maybeConst noexcept \
-- 
2.43.0


From 534522e0acd0c744e24bd32dc33413e68be5c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 51/81] fix: Keep the bounds in
 DynamicVectorFieldPlaceholder::type

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..8df571e 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -54,7 +54,7 @@ template <typename T,
           std::size_t min_ = std::numeric_limits<std::size_t>::min(),
           std::size_t max_ = std::numeric_limits<std::size_t>::max()>
 struct DynamicVectorFieldPlaceholder {
-    using type = DynamicVectorFieldPlaceholder<T>;
+    using type = DynamicVectorFieldPlaceholder;
     using valueType = T;
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
-- 
2.43.0


From c97ced0177d9d0218c341eea075fceba7c73c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 52/81] fix: Make the assignment operators of
 DynamicPackedStruct work

Copy assignment did not compile, and move assignment flowed off the end
without returning anything.
---
 src/DynamicPackedStruct.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..d96777c 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -24,6 +24,7 @@
 #include <cstddef>
 #include <cstring>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 #include "DynamicPackingInfo.h"
@@ -138,31 +139,31 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
         if (copy.m_data) {
             if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
+                if (size() != copy.size()) {
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
-                        m_data = newData;
+                        m_data.reset(newData);
                     } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
+                        if (size() < copy.size())
                             throw std::bad_alloc();
                     }
                 }
             } else {
-                m_data = ::operator new(copy.size());
+                m_data.reset(::operator new(copy.size()));
             }
             std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From 7338577b64b7a0b3736de2f3e5d3593b8425eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 53/81] fix: Give DynamicPackedStruct without dynamic fields a
 correct size

Such structures exist at least as StaticPrefixType. Their size was taken from
before the beginning of the empty array of dynamic sizes.
---
 src/DynamicPackingInfo.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 8df571e..35b39ee 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -335,7 +335,7 @@ struct AccumArrayType
     type & operator=(type const &) noexcept = default;
 
     std::size_t structSizeInBytes() const noexcept
-    { return StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]; }
+    { return elemOffset<numFields()>(); }
 
     template <std::size_t I>
     typename std::enable_if<
@@ -520,10 +520,7 @@ struct DynamicPackingInfo {
 
     static constexpr std::size_t sizeFromAccum(AccumArrayType const & accumSizes)
             noexcept
-    {
-        return Detail::DynamicPacking::StaticTailSize<Ts...>::value
-               + accumSizes[numDynamicFields() - 1u];
-    }
+    { return accumSizes.structSizeInBytes(); }
 
     template <std::size_t I>
     constexpr static std::size_t elemOffset(AccumArrayType const & accumSizes)
-- 
2.43.0


From 107c5244efe1f335f2bb9633b655414570d16069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 54/81] fix: Don't return a dangling reference from set() of
 dynamic packed structures

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 35b39ee..7c7a2a7 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -415,7 +415,7 @@ struct AccumArrayType
     auto set(void * const data, ElemType<I> const & v) const noexcept ->
             typename std::enable_if<
                 TypeTraits<I>::isStatic,
-                decltype(ref<I>(data) = v)
+                ReferenceType<I>
             >::type
     { return ref<I>(data) = v; }
 
-- 
2.43.0


From a58eba9cc97aebb559677d6f3b83dca2253672f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 55/81] fix: Don't let the sizes of dynamic packed structures
 wrap around

Element counts whose total size is not representable resulted in allocations
which were too small for them. The maximum size in bytes of structures with
unbounded dynamic fields wrapped around to some small number.
---
 src/DynamicPackingInfo.h | 47 +++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 7c7a2a7..59f49af 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -39,6 +39,29 @@
 
 
 namespace sharemind {
+namespace Detail {
+namespace DynamicPacking {
+
+/* Sizes which are not representable saturate to the maximum of std::size_t. */
+
+constexpr inline std::size_t addSizes(std::size_t const a, std::size_t const b)
+        noexcept
+{
+    return (std::numeric_limits<std::size_t>::max() - a < b)
+           ? std::numeric_limits<std::size_t>::max()
+           : a + b;
+}
+
+constexpr inline std::size_t multiplySize(std::size_t const elementSize,
+                                          std::size_t const n) noexcept
+{
+    return (std::numeric_limits<std::size_t>::max() / elementSize < n)
+           ? std::numeric_limits<std::size_t>::max()
+           : elementSize * n;
+}
+
+} /* namespace DynamicPacking { */
+} /* namespace Detail { */
 
 template <std::size_t min_ = std::numeric_limits<std::size_t>::min(),
           std::size_t max_ = std::numeric_limits<std::size_t>::max()>
@@ -58,8 +81,10 @@ struct DynamicVectorFieldPlaceholder {
     using valueType = T;
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
-    constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }
-    constexpr static std::size_t maxBytes() { return max_ * sizeof(valueType); }
+    constexpr static std::size_t minBytes()
+    { return Detail::DynamicPacking::multiplySize(sizeof(valueType), min_); }
+    constexpr static std::size_t maxBytes()
+    { return Detail::DynamicPacking::multiplySize(sizeof(valueType), max_); }
 };
 
 namespace Detail {
@@ -124,9 +149,9 @@ struct FieldsTraits<T, Ts...> {
     constexpr static bool isStatic =
             FieldTraits<T>::isStatic && FieldsTraits<Ts...>::isStatic;
     constexpr static std::size_t minBytes =
-            FieldTraits<T>::minBytes + FieldsTraits<Ts...>::minBytes;
+            addSizes(FieldTraits<T>::minBytes, FieldsTraits<Ts...>::minBytes);
     constexpr static std::size_t maxBytes =
-            FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
+            addSizes(FieldTraits<T>::maxBytes, FieldsTraits<Ts...>::maxBytes);
 };
 
 template <typename ... Ts> struct ValidSizes;
@@ -178,7 +203,10 @@ struct AccumSize<DynamicFieldPlaceholder<min_, max_>, Ts...> {
     template <typename ... Args>
     constexpr static std::size_t value(std::size_t const size,
                                        Args && ... args) noexcept
-    { return size + AccumSize<Ts...>::value(std::forward<Args>(args)...); }
+    {
+        return addSizes(size,
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
+    }
 };
 
 template <typename T, std::size_t min_, std::size_t max_, typename ... Ts>
@@ -187,8 +215,8 @@ struct AccumSize<DynamicVectorFieldPlaceholder<T, min_, max_>, Ts...> {
     constexpr static std::size_t value(std::size_t const size,
                                        Args && ... args) noexcept
     {
-        return sizeof(T) * size
-               + AccumSize<Ts...>::value(std::forward<Args>(args)...);
+        return addSizes(multiplySize(sizeof(T), size),
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
     }
 };
 
@@ -196,7 +224,10 @@ template <typename T, typename ... Ts>
 struct AccumSize<T, Ts...> {
     template <typename ... Args>
     constexpr static std::size_t value(Args && ... args) noexcept
-    { return sizeof(T) + AccumSize<Ts...>::value(std::forward<Args>(args)...); }
+    {
+        return addSizes(sizeof(T),
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
+    }
 };
 
 template <typename ... Ts>
-- 
2.43.0


From 8db8f86ba3fb7429daf1ad44d06a2f8d38697ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 56/81] fix: Return from the move assignment of
 UninitializedDynamicArray

The operator flowed off its end. Additionally, self-assignment now keeps the
size.
---
 src/UninitializedDynamicArray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..a6b2409 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -67,9 +67,11 @@ public: /* Methods: */
     UninitializedDynamicArray & operator=(
                 UninitializedDynamicArray && move) noexcept
     {
-        m_size = move.m_size;
-        m_data = std::move(move.m_data);
+        auto const newSize = move.m_size;
         move.m_size = 0u;
+        m_size = newSize;
+        m_data = std::move(move.m_data);
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From de368d893037d69aa61cf2eeb587f68334496ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 57/81] fix: Allocate aligned storage also for alignments below
 sizeof(void *)

For example, all allocations of AlignedAllocator<int> failed with
std::bad_alloc on 64-bit systems.
---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..5604c7e 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -35,7 +35,10 @@ inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    // posix_memalign() fails for alignments below sizeof(void *):
+    constexpr std::size_t const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From c004d2034566f8f81fa6b509ebe3ee8f21192efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 58/81] fix: Don't let AlignedAllocator allocate too little
 when sizes wrap around

---
 src/AlignedAllocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index 5604c7e..9b2e61d 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -21,7 +21,7 @@
 #define SHAREMIND_ALIGNEDALLOCATOR_H
 
 #include <cstdlib>
-/* #include <limits> */
+#include <limits>
 #include <new>
 #include <memory>
 /* #include <type_traits> */
@@ -118,6 +118,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 1397c0815e5feeb64f39dd295f212189e09067e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 59/81] fix: Make BasicInputMemoryStream work with other
 characters than char

---
 src/InputMemoryStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputMemoryStream.h b/src/InputMemoryStream.h
index c2730b8..bbd1dd6 100644
--- a/src/InputMemoryStream.h
+++ b/src/InputMemoryStream.h
@@ -51,7 +51,7 @@ public: /* Methods: */
 
     BasicInputMemoryStream(CharT const * data, std::size_t size)
         : Detail::BasicMemoryBuffer<CharT, Traits>(data, size)
-        , std::istream(
+        , std::basic_istream<CharT, Traits>(
               static_cast<Detail::BasicMemoryBuffer<CharT, Traits> *>(this))
     {}
 
-- 
2.43.0


From 9f4576c0183a80a9b9106e39fefccdde47acd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 60/81] fix: Write contents of strings and messages to
 messages, not representations

The template for plain values was a better match for std::string,
NetworkMessage and char * arguments than the overloads meant for those, unless
the former were const lvalues, hence the raw object representations of these
objects, i.e. pointers, were written to messages.
---
 src/NetworkMessage.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..c8c714d 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -138,6 +138,21 @@ public: /* Methods: */
 
 class OutgoingNetworkMessage: public SeekableNetworkMessage {
 
+private: /* Types: */
+
+    /** Whether to write the object representation of T. False for types handled
+        by other overloads of write(), which would be worse matches. */
+    template <typename T, typename U = typename std::decay<T>::type>
+    struct IsPlainValue
+        : std::integral_constant<
+            bool,
+            !std::is_base_of<NetworkMessage, U>::value
+            && !std::is_base_of<std::string, U>::value
+            && !std::is_same<typename std::remove_reference<T>::type,
+                             char *>::value
+        >
+    {};
+
 public: /* Methods: */
 
     OutgoingNetworkMessage(OutgoingNetworkMessage const &) = delete;
@@ -156,7 +171,8 @@ public: /* Methods: */
     inline void write(NetworkMessage const & val) noexcept(false);
 
     template<typename T>
-    inline void write(T && val) noexcept(false);
+    inline typename std::enable_if<IsPlainValue<T>::value, void>::type
+    write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
     inline void writeSize(SizeType size) noexcept(false);
@@ -409,7 +425,11 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
 { writeBytes(message.data, message.size); }
 
 template <typename T>
-inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
+inline typename std::enable_if<
+    OutgoingNetworkMessage::IsPlainValue<T>::value,
+    void
+>::type
+OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
 template <typename SerializedSizeType, typename SizeType>
-- 
2.43.0


From cc7363b11b324bfaeaae4f59305fa611877af153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 61/81] fix: Consume nothing from a message when a size is not
 representable

---
 src/NetworkMessage.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index c8c714d..08fe157 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -342,12 +342,15 @@ template <typename SerializedSizeType,
 inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
+    auto const rollbackOffset(m_offset);
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -364,12 +367,15 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SerializedSizeType>::value, "");
     static_assert(std::is_unsigned<SizeType>::value, "");
 
+    auto const rollbackOffset(m_offset);
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From 306a693963edc1c7263f371991e58548a5b518ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 62/81] fix: Fail cleanly on reads from empty messages without
 data

Incoming messages may be created with a null pointer and size 0, e.g. from
outgoing messages nothing was written to, but any read from these failed an
assertion.
---
 src/NetworkMessage.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 08fe157..064f4a0 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -254,12 +254,15 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
         return false;
 
+    if (size <= 0u)
+        return true;
+
     std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
     m_offset += size;
     return true;
@@ -268,7 +271,7 @@ inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -283,7 +286,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -314,7 +317,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -387,7 +390,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
@@ -399,6 +402,9 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
     if (getRemainingSize() < sizeInBytes)
         return false;
 
+    if (sizeInBytes <= 0u)
+        return true;
+
     std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
     m_offset += sizeInBytes;
     return true;
-- 
2.43.0


From 08a491efa054d6bd2a66be963009358cb599b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 63/81] fix: Do not dereference the null pointer of empty data
 in Datum

---
 src/Datum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..0fef833 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,20 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.data());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From bc831311f88afa575cbd197b5a64951a574d67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 64/81] fix: Do not abort when reading a file is interrupted or
 fails

---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 0fef833..c80978b 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,6 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
@@ -188,6 +187,7 @@ private: /* Methods: */
                         if (errno != EINTR)
                             throw ErrnoException(errno);
                     } else {
+                        assert(static_cast<U>(read) <= toReadAtOnce);
                         leftToRead -= static_cast<U>(read);
                         if (leftToRead <= 0u)
                             break;
-- 
2.43.0


From 7f7b28b1cbc2297cc18db49e59f9861c8ee112f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 65/81] fix: Make scope guards movable, so that makeScopeExit()
 compiles

---
 src/ScopeExit.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ScopeExit.h b/src/ScopeExit.h
index 31ce1c2..4e323b5 100644
--- a/src/ScopeExit.h
+++ b/src/ScopeExit.h
@@ -32,7 +32,14 @@ public: /* Methods: */
 
     template <typename ... Args>
     ScopeExit(Args && ... args) : m_f{std::forward<Args>(args)...} {}
-    ~ScopeExit() noexcept(false) { m_f(); }
+
+    ScopeExit(ScopeExit && move) : m_f{std::move(move.m_f)}
+    { move.m_f = nullptr; }
+
+    ~ScopeExit() noexcept(false) {
+        if (m_f)
+            m_f();
+    }
 
 private: /* Fields: */
 
-- 
2.43.0


From 16cf8d96b38b7b9fac893fe0504a37648bc7dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 66/81] fix: Make constant reference vectors constructible from
 reference vectors

---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From 22e7f9d21bf7f00288b0bb8a2e93e6c26e0d3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 67/81] fix: Print exceptions which were nested outside of
 exception handlers

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..2dd9363 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e)
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From 179b9b2a68e96258a13bb08a9dcc9195ae00b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 68/81] fix: Detect overflows of integer literals with any
 number of digits

---
 src/IntegerLiterals.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 2e9e44c..5805ea0 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -50,6 +50,7 @@ struct LastDigit: LiteralBase<Base> {
     constexpr static bool valid = true;
     constexpr static std::uintmax_t value = Value;
     constexpr static std::uintmax_t rank = 1u;
+    constexpr static bool rankOverflow = false;
     constexpr static std::uintmax_t digits = 1u;
 };
 
@@ -141,11 +142,16 @@ struct LiteralStep {
             || Tail::overflow
             || ((Head::value != 0)
                 && (
-                    (Tail::rank > (Max / base))
+                    Tail::rankOverflow
+                    || (Tail::rank > (Max / base))
                     || (Head::value > (Max / (Tail::rank * base)))
                     || (Tail::value
                         > (Max - (Head::value * (Tail::rank * base))))
                 ));
+    constexpr static bool rankOverflow =
+            Tail::rankOverflow
+            || (Tail::rank > (std::numeric_limits<std::uintmax_t>::max()
+                              / base));
     constexpr static std::uintmax_t rank = Tail::rank * base;
     constexpr static std::uintmax_t value = Head::value * rank + Tail::value;
     constexpr static std::uintmax_t digits = Tail::digits + Head::digits;
-- 
2.43.0


From d6476ad46031bb0d8a28c6ef617da144cbb49161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 69/81] fix: Reject invalid integer literals instead of
 evaluating them to zero

---
 src/IntegerLiterals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 5805ea0..a254b7e 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -241,12 +241,14 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid integer literal!"); \
         static_assert(!L::overflow, "Overflow in _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid integer literal!"); \
         return static_cast<T>(L::value); \
     }
 
@@ -254,11 +256,13 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid integer literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_no_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid integer literal!"); \
         static_assert(!L::overflow, \
                       "Overflow in _" #P "_no_overflow literal!"); \
         return static_cast<T>(L::value); \
-- 
2.43.0


From a7970e19edab4c4bc37bc1a1c553b9b33b1f7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 70/81] fix: Give CstddefLiterals.h an include guard of its own

---
 src/CstddefLiterals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CstddefLiterals.h b/src/CstddefLiterals.h
index 363bff4..fa72120 100644
--- a/src/CstddefLiterals.h
+++ b/src/CstddefLiterals.h
@@ -17,8 +17,8 @@
  * For further information, please contact us at sharemind@cyber.ee.
  */
 
-#ifndef SHAREMIND_CSTDINTLITERALS_H
-#define SHAREMIND_CSTDINTLITERALS_H
+#ifndef SHAREMIND_CSTDDEFLITERALS_H
+#define SHAREMIND_CSTDDEFLITERALS_H
 
 #include <cstddef>
 #include "IntegerLiterals.h"
@@ -35,4 +35,4 @@ SHAREMIND_INTEGERLITERAL_UNSIGNED_OPS(std::size_t,
 
 } /* namespace sharemind { */
 
-#endif /* #ifndef SHAREMIND_CSTDINTLITERALS_H */
+#endif /* #ifndef SHAREMIND_CSTDDEFLITERALS_H */
-- 
2.43.0


From 95c4391e771175a3b26d772445eb9fe67aaca7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 71/81] fix: Make TemplateFilter and TemplateInverseFilter
 compile for non-empty lists

---
 src/TemplatePrepend.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TemplatePrepend.h b/src/TemplatePrepend.h
index e8c15dd..1a700bf 100644
--- a/src/TemplatePrepend.h
+++ b/src/TemplatePrepend.h
@@ -33,6 +33,14 @@ template <typename T, template <T ...> class Tmpl, T ... Tvs, T ... vs>
 struct TemplatePrepend<T, Tmpl<Tvs...>, vs...>
 { using type = Tmpl<vs..., Tvs...>; };
 
+/* For templates like TemplateList: */
+template <typename T,
+          template <typename U, U ...> class Tmpl,
+          T ... Tvs,
+          T ... vs>
+struct TemplatePrepend<T, Tmpl<T, Tvs...>, vs...>
+{ using type = Tmpl<T, vs..., Tvs...>; };
+
 } /* namespace Sharemind { */
 
 #endif /* SHAREMIND_TEMPLATEPREPEND_H */
-- 
2.43.0


From d73425f226a80a9122aa28d8d3468d5379b8e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 72/81] fix: Make TemplateContainsType compile for types
 contained many times

---
 src/TemplateContainsType.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/TemplateContainsType.h b/src/TemplateContainsType.h
index d0f59de..6daff60 100644
--- a/src/TemplateContainsType.h
+++ b/src/TemplateContainsType.h
@@ -27,8 +27,9 @@ namespace sharemind {
 
 template <typename Needle, typename ... Haystack>
 using TemplateContainsType =
-        std::integral_constant<bool,
-                               TemplateCountTypes<Needle, Haystack...>::value>;
+        std::integral_constant<
+            bool,
+            (TemplateCountTypes<Needle, Haystack...>::value > 0u)>;
 
 template <typename Needle, typename ... Haystack>
 constexpr auto TemplateContainsType_v =
-- 
2.43.0


From 27ba5b9419b1aac68fe5f2641bb7043344735267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 73/81] fix: IsSwappable did not compile for types without
 references

---
 src/IsSwappable.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/IsSwappable.h b/src/IsSwappable.h
index 0a72357..0dbe89c 100644
--- a/src/IsSwappable.h
+++ b/src/IsSwappable.h
@@ -57,6 +57,22 @@ struct TestNoexcept
 template <typename T, typename U>
 struct TestNoexcept<T, U, false> : std::false_type {};
 
+template <typename T,
+          bool referenceable = ::sharemind::IsReferenceable<T>::value>
+struct TestSame : std::integral_constant<bool, Test<T &, T &>::value> {};
+
+template <typename T>
+struct TestSame<T, false> : std::false_type {};
+
+template <typename T,
+          bool referenceable = ::sharemind::IsReferenceable<T>::value>
+struct TestSameNoexcept
+        : std::integral_constant<bool, TestNoexcept<T &, T &>::value>
+{};
+
+template <typename T>
+struct TestSameNoexcept<T, false> : std::false_type {};
+
 } /* namespace IsSwappable { */
 } /* namespace Detail { */
 
@@ -67,13 +83,7 @@ struct IsSwappableWith
 
 template <typename T>
 struct IsSwappable
-        : std::integral_constant<
-            bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+        : std::integral_constant<bool, Detail::IsSwappable::TestSame<T>::value>
 {};
 
 template <typename T, typename U>
@@ -87,11 +97,7 @@ template <typename T>
 struct IsNothrowSwappable
         : std::integral_constant<
             bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsNothrowSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+            Detail::IsSwappable::TestSameNoexcept<T>::value>
 {};
 
 } /* namespace Sharemind { */
-- 
2.43.0


From 3413d94ae98cc0524b8bf1d7928fc5ebcd7782be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 74/81] fix: AtomicFlags::has() used a method missing from
 Flags

---
 src/Flags.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flags.h b/src/Flags.h
index ef87ca7..673ac7a 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -84,6 +84,9 @@ public: /* Methods: */
     Flags<T, U> & toggleFlags(U const flags) noexcept
     { return ((m_flags ^= flags), *this); }
 
+    bool has(U const flags, U const of) const noexcept
+    { return (m_flags & of) == flags; }
+
     bool hasAnyOf(U const flags) const noexcept { return m_flags & flags; }
 
     bool hasAllOf(U const flags) const noexcept
-- 
2.43.0


From fefeaf5ca77565d9194d70104d46429194c23f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 75/81] fix: Exceptions from copying the functions of an
 UnorderedMap terminated

---
 src/UnorderedMap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index cd3882d..66315a2 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -622,11 +622,11 @@ public: /* Methods: */
     /* Observers: */
 
     hasher hash_function() const
-        noexcept(noexcept(std::is_nothrow_copy_constructible<hasher>::value))
+        noexcept(std::is_nothrow_copy_constructible<hasher>::value)
     { return m_hasher; }
 
     key_equal key_eq() const
-        noexcept(noexcept(std::is_nothrow_copy_constructible<key_equal>::value))
+        noexcept(std::is_nothrow_copy_constructible<key_equal>::value)
     { return m_pred; }
 
 
-- 
2.43.0


From 3d3bd2ddf82b761abf128cc04ec84216c1dde2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 76/81] fix: Failures to create a PackagedTask terminated

---
 src/Future.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 5f72066..afa7188 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -567,9 +567,10 @@ public: /* Methods: */
 
     template <typename F>
     PackagedTask(F && f)
-            noexcept(noexcept(std::is_nothrow_constructible<
+            noexcept(std::is_nothrow_default_constructible<Promise<R> >::value
+                     && std::is_nothrow_constructible<
                                     decltype(PackagedTask::m_function),
-                                    decltype(std::forward<F>(f))>::value))
+                                    decltype(std::forward<F>(f))>::value)
         : m_function(std::forward<F>(f))
     {}
 
-- 
2.43.0


From 9535afa39a7a56321b4765725136b2dfcc68b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 77/81] fix: BitVec construction read single-pass input twice

---
 src/BitVector.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index aa57cd0..3c6822a 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -167,11 +167,10 @@ public: /* Methods: */
     template <typename InputIterator>
     BitVec (InputIterator begin, InputIterator end, const Alloc& alloc = Alloc ())
         : m_blocks (alloc)
-        , m_num_bits (std::distance (begin, end))
+        , m_num_bits (0)
     {
-        const size_type num_blocks = compute_block_count (m_num_bits);
-        m_blocks.resize (num_blocks);
-        assign (begin, end);
+        typename std::iterator_traits<InputIterator>::iterator_category category;
+        construct_ (begin, end, category);
     }
 
     ~BitVec () {
@@ -400,6 +399,20 @@ private: /* Methods: */
 
     size_type num_blocks_() const { return m_blocks.size (); }
 
+    /* The values might be readable only once: */
+    template <typename InputIterator>
+    void construct_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
+        for (; begin != end; ++ begin) {
+            push_back (*begin);
+        }
+    }
+
+    template <typename InputIterator>
+    void construct_ (InputIterator begin, InputIterator end, std::forward_iterator_tag) {
+        resize (std::distance (begin, end));
+        assign (begin, end);
+    }
+
     template <typename InputIterator>
     void assign_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
         std::vector<typename std::iterator_traits<InputIterator>::value_type > temp (begin, end);
-- 
2.43.0


From c33027a32ca154ffc8a66e16257d37825a599227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 78/81] fix: Optional comparisons with values terminated on
 exceptions

---
 src/Optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 6ef045d..24a712e 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -693,10 +693,12 @@ SHAREMIND_OPTIONAL_H_NULLCOMPARE(>=, (static_cast<void>(x), true), !x)
 
 #define SHAREMIND_OPTIONAL_H_VALUECOMPARE(op,r1,r2) \
     template <typename T, typename U> \
-    constexpr bool operator op(Optional<T> const & x, U const & v) noexcept \
+    constexpr bool operator op(Optional<T> const & x, U const & v) \
+            noexcept(noexcept(*x op v)) \
     { return bool(x) ? (*x op v) : r1; } \
     template <typename T, typename U> \
-    constexpr bool operator op(T const & v, Optional<U> const & x) noexcept \
+    constexpr bool operator op(T const & v, Optional<U> const & x) \
+            noexcept(noexcept(v op *x)) \
     { return bool(x) ? (v op *x) : r2; }
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(==, false, false)
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(!=, true,  true)
-- 
2.43.0


From d54e72bf0f64e6d55b61cb81b38946a370bd3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 79/81] fix: TimeoutsThread ran tasks with huge timeouts at
 once

---
 src/TimeoutsThread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..6acf521 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -208,7 +208,14 @@ public: /* Methods: */
 
     void addTimeoutTask(Clock::duration const & duration,
                         std::unique_ptr<Task> task) noexcept
-    { return addTask(Clock::now() + duration, std::move(task)); }
+    {
+        auto const now(Clock::now());
+        auto const maxDuration(Clock::time_point::max() - now);
+        return addTask((duration < maxDuration)
+                       ? now + duration
+                       : Clock::time_point::max(),
+                       std::move(task));
+    }
 
     template <typename TimePoint>
     void addTask(TimePoint && timePoint, std::unique_ptr<Task> task) noexcept {
-- 
2.43.0


From 6ffb105625d256f3e90776ea9841439995e5b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 80/81] fix: pending tasks of thread pools and strands were
 destroyed recursively

---
 src/Strand.h     | 6 ++++++
 src/ThreadPool.h | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Strand.h b/src/Strand.h
index 6cb3b2c..2470526 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -64,6 +64,12 @@ private: /* Types: */
             : m_threadPool(std::move(threadPool))
         {}
 
+        ~Internal() noexcept {
+            // Avoid recursion, the number of pending tasks is not limited:
+            while (m_head)
+                m_head = std::move(m_head->m_next);
+        }
+
         void submit(ThreadPool::Task && task) noexcept {
             assert(task);
             assert(task->m_value);
diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 42e887e..9e2c29e 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -96,7 +96,11 @@ public: /* Methods: */
     ThreadPool & operator=(ThreadPool &&) = delete;
     ThreadPool & operator=(ThreadPool const &) = delete;
 
-    virtual ~ThreadPool() noexcept {}
+    virtual ~ThreadPool() noexcept {
+        // Avoid recursion, because the number of pending tasks is not limited:
+        while (m_head)
+            m_head = std::move(m_head->m_next);
+    }
 
     template <typename F>
     static Task createTask(F && f) {
-- 
2.43.0


From 46c26855c80189b78c595fde4f77bcabcbfa0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:42 +0000
Subject: [PATCH 81/81] fix: test macros used the tested expression as a printf
 format

---
 src/TestAssert.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/TestAssert.h b/src/TestAssert.h
index e11e6f8..e2f0622 100644
--- a/src/TestAssert.h
+++ b/src/TestAssert.h
@@ -89,7 +89,8 @@
     do { \
         std::fprintf( \
                 stderr,  \
-                __FILE__ ":%d: %s: Sharemind test unreachable code reached!\n",\
+                "%s:%d: %s: Sharemind test unreachable code reached!\n", \
+                __FILE__, \
                 __LINE__, \
                 __PRETTY_FUNCTION__); \
         std::fflush(stderr); \
@@ -103,10 +104,12 @@
         } catch (...) { \
             std::fprintf(\
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test expression does not " \
-                    "throw assertion failed for  `" #__VA_ARGS__ "'!\n", \
+                    "%s:%d: %s: Sharemind test expression does not " \
+                    "throw assertion failed for  `%s'!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; \
             std::abort(); \
@@ -119,10 +122,12 @@
             { __VA_ARGS__ ; } \
             std::fprintf( \
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test expression throws " \
-                    "assertion failed for `" #__VA_ARGS__ "'!\n", \
+                    "%s:%d: %s: Sharemind test expression throws " \
+                    "assertion failed for `%s'!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             std::abort(); \
         } catch (...) { } \
@@ -134,20 +139,23 @@
             if (!(__VA_ARGS__)) { \
                 std::fprintf( \
                         stderr, \
-                        __FILE__ ":%d: %s: Sharemind test assertion `" \
-                        #__VA_ARGS__ "' failed!\n", \
+                        "%s:%d: %s: Sharemind test assertion `%s' failed!\n", \
+                        __FILE__, \
                         __LINE__, \
-                        __PRETTY_FUNCTION__); \
+                        __PRETTY_FUNCTION__, \
+                        #__VA_ARGS__); \
                 std::fflush(stderr); \
                 std::abort(); \
             } \
         } catch(...) { \
             std::fprintf( \
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test assertion `" \
-                    #__VA_ARGS__ "' failed due to unexpected exception!\n", \
+                    "%s:%d: %s: Sharemind test assertion `%s' failed due to " \
+                    "unexpected exception!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; \
             std::abort(); \
-- 
2.43.0

