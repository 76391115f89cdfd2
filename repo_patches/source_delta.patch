From 5cb5355c3d34f700adda90c074db09689a3e5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:24 +0000
Subject: [PATCH 01/52] fix: read each sequence once when computing the minimum

getMinimumSequence() picked the smallest sequence and then read that sequence a
second time. Its owner may have advanced it in between, so the result could exceed
the true minimum and a producer could overwrite a slot (or a dependent consumer
could run) ahead of a slower consumer.
---
 src/disruptor/include/disruptor/Sequence.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..a3eb536 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,11 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    // N.B. each sequence is read exactly once: its owner may advance it between two reads
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 0cce5154fb68d5263d8153a2ae10243a0fedf0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 02/52] fix: do not use a gating list that is being replaced

RingBuffer dereferenced the gating list without holding a reference to it, so a
producer could iterate over a list freed by a concurrent add/removeGatingSequence(),
and a producer blocked in next() kept waiting for a consumer that had been removed.
The claim strategies now re-read the list whenever they evaluate the minimum.
---
 .../include/disruptor/ClaimStrategy.hpp       | 24 ++++++++++++-------
 .../include/disruptor/RingBuffer.hpp          | 12 +++++-----
 src/disruptor/include/disruptor/Sequence.hpp  |  7 ++++++
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..d5a902e 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -39,7 +39,8 @@ public:
     SingleThreadedStrategy(const SingleThreadedStrategy &&) = delete;
     void operator=(const SingleThreadedStrategy &)          = delete;
 
-    bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
+    template<typename Dependents>
+    bool hasAvailableCapacity(const Dependents &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
         if (const std::int64_t wrapPoint = (_nextValue + requiredCapacity) - static_cast<std::int64_t>(SIZE); wrapPoint > _cachedValue || _cachedValue > _nextValue) {
             auto minSequence = detail::getMinimumSequence(dependents, _nextValue);
             _cachedValue     = minSequence;
@@ -50,7 +51,8 @@ public:
         return true;
     }
 
-    std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
+    template<typename Dependents>
+    std::int64_t next(const Dependents &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
         assert((n_slots_to_claim > 0 && n_slots_to_claim < static_cast<std::int32_t>(SIZE)) && "n_slots_to_claim must be > 0 and < bufferSize");
 
         auto nextSequence = _nextValue + n_slots_to_claim;
@@ -74,7 +76,8 @@ public:
         return nextSequence;
     }
 
-    std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim) {
+    template<typename Dependents>
+    std::int64_t tryNext(const Dependents &dependents, const std::int32_t n_slots_to_claim) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         if (!hasAvailableCapacity(dependents, n_slots_to_claim, 0 /* unused cursor value */)) {
@@ -87,7 +90,8 @@ public:
         return nextSequence;
     }
 
-    std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    template<typename Dependents>
+    std::int64_t getRemainingCapacity(const Dependents &dependents) const noexcept {
         const auto consumed = detail::getMinimumSequence(dependents, _nextValue);
         const auto produced = _nextValue;
 
@@ -134,7 +138,8 @@ public:
     MultiThreadedStrategy(const MultiThreadedStrategy &&)       = delete;
     void               operator=(const MultiThreadedStrategy &) = delete;
 
-    [[nodiscard]] bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
+    template<typename Dependents>
+    [[nodiscard]] bool hasAvailableCapacity(const Dependents &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
         const auto wrapPoint = (cursorValue + requiredCapacity) - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _gatingSequenceCache->value(); wrapPoint > cachedGatingSequence || cachedGatingSequence > cursorValue) {
@@ -148,7 +153,8 @@ public:
         return true;
     }
 
-    [[nodiscard]] std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    template<typename Dependents>
+    [[nodiscard]] std::int64_t next(const Dependents &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -182,7 +188,8 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    template<typename Dependents>
+    [[nodiscard]] std::int64_t tryNext(const Dependents &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -200,7 +207,8 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    template<typename Dependents>
+    [[nodiscard]] std::int64_t getRemainingCapacity(const Dependents &dependents) const noexcept {
         const auto produced = _cursor.value();
         const auto consumed = detail::getMinimumSequence(dependents, produced);
 
diff --git a/src/disruptor/include/disruptor/RingBuffer.hpp b/src/disruptor/include/disruptor/RingBuffer.hpp
index 369e87d..7a92b90 100644
--- a/src/disruptor/include/disruptor/RingBuffer.hpp
+++ b/src/disruptor/include/disruptor/RingBuffer.hpp
@@ -44,10 +44,10 @@ public:
     }
 
     [[nodiscard]] constexpr std::int32_t                    bufferSize() const noexcept override { return SIZE; }
-    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*_gatingSequences, requiredCapacity, _cursor->value()); }
-    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*_gatingSequences); }
+    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(_gatingSequences, requiredCapacity, _cursor->value()); }
+    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(_gatingSequences); }
     void                                                    publish(std::int64_t sequence) override { _claimStrategy->publish(sequence); }
     [[nodiscard]] OPENCMW_FORCEINLINE bool                  isAvailable(std::int64_t sequence) const noexcept override { return _claimStrategy->isAvailable(sequence); }
     [[nodiscard]] std::int64_t                              getHighestPublishedSequence(std::int64_t nextSequence, std::int64_t availableSequence) const noexcept override { return _claimStrategy->getHighestPublishedSequence(nextSequence, availableSequence); }
@@ -55,8 +55,8 @@ public:
     [[nodiscard]] bool                                      isPublished(std::int64_t sequence) const noexcept override { return isAvailable(sequence); }
     void                                                    addGatingSequences(const std::vector<std::shared_ptr<Sequence>> &gatingSequences) override { detail::addSequences(_gatingSequences, *_cursor, gatingSequences); }
     bool                                                    removeGatingSequence(const std::shared_ptr<Sequence> &sequence) override { return detail::removeSequence(_gatingSequences, sequence); }
-    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return _gatingSequences; }
-    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*_gatingSequences, _cursor->value()); }
+    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return std::atomic_load_explicit(&_gatingSequences, std::memory_order_acquire); }
+    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(_gatingSequences, _cursor->value()); }
     [[nodiscard]] auto                                      claimStrategy() { return _claimStrategy; }
     [[nodiscard]] auto                                      waitStrategy() { return _waitStrategy; }
     [[nodiscard]] auto                                      cursorSequence() { return _cursor; }
diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index a3eb536..84e4fd6 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -66,6 +66,13 @@ inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequenc
     return minimum;
 }
 
+/**
+ * Get the minimum sequence from a list that may concurrently be replaced by addSequences() or removeSequence().
+ */
+inline std::int64_t getMinimumSequence(const std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
+    return getMinimumSequence(*std::atomic_load_explicit(&sequences, std::memory_order_acquire), minimum);
+}
+
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
     std::int64_t                                            cursorSequence;
     std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> updatedSequences;
-- 
2.43.0


From e1c10110f64c42f7b6f9f3dcf13c161f4ca1c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:51 +0000
Subject: [PATCH 03/52] fix: spinUntil(-1) waits without time-out, spinUntil(1)
 times out

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 809d0be79a128b8e2149e15e0922f466d9887148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:51 +0000
Subject: [PATCH 04/52] fix: thread pool can be destroyed after
 requestShutdown()

---
 src/core/include/ThreadPool.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4997002..0056ed0 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -261,11 +261,7 @@ public:
     }
 
     ~BasicThreadPool() {
-        _shutdown = true;
-        _condition.notify_all();
-        for (auto &t : _threads) {
-            t.join();
-        }
+        requestShutdown();
     }
 
     BasicThreadPool(const BasicThreadPool &)                     = delete;
@@ -287,7 +283,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) {
+                t.join();
+            }
         }
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
-- 
2.43.0


From b9eac2ebd40fec81328893d9467bd64a6f5331da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:28 +0000
Subject: [PATCH 05/52] fix: thread pool workers do not miss task and shutdown
 notifications

---
 src/core/include/ThreadPool.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 0056ed0..f2dcf08 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -227,8 +227,9 @@ class BasicThreadPool {
     static std::string           generateName() { return std::format("BasicThreadPool#{}", _globalPoolId.fetch_add(1)); }
 
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
-    bool                         _shutdown    = false;
+    std::atomic<bool>            _shutdown    = false;
 
+    std::mutex                   _conditionMutex; // shared by all workers waiting on _condition
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
     std::atomic<std::size_t>     _numTasksRunning = 0U;
@@ -280,7 +281,10 @@ public:
     [[nodiscard]] bool        isInitialised() const { return _initialised.load(std::memory_order::acquire); }
     void                      waitUntilInitialised() const { _initialised.wait(false); }
     void                      requestShutdown() {
-        _shutdown = true;
+        {
+            std::scoped_lock lock(_conditionMutex);
+            _shutdown = true;
+        }
         _condition.notify_all();
         for (auto &t : _threads) {
             if (t.joinable()) {
@@ -323,7 +327,10 @@ public:
                         cpuID, _affinityMask.size(), opencmw::join(_affinityMask, ", ")));
             }
         }
-        _numTaskedQueued.fetch_add(1U);
+        {
+            std::scoped_lock lock(_conditionMutex); // a worker about to sleep either sees the new task or gets the notification
+            _numTaskedQueued.fetch_add(1U);
+        }
 
         _taskQueue.push(createTask<taskName, priority, cpuID>(FWD(func), FWD(args)...));
         _condition.notify_one();
@@ -464,8 +471,6 @@ private:
         constexpr uint32_t N_SPIN       = 1 << 8;
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
-        std::mutex         mutex;
-        std::unique_lock   lock(mutex);
         auto               lastUsed = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
             std::atomic_store_explicit(&_initialised, true, std::memory_order_release);
@@ -498,6 +503,7 @@ private:
                 noop_counter = noop_counter / 2;
                 cleanupFinishedThreads();
 
+                std::unique_lock lock(_conditionMutex);
                 _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
-- 
2.43.0


From 5bd91ff519343feb624dc41fb349d0335b0f6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 06/52] fix: real-time thread reads back the setting it
 replaced

---
 src/disruptor/include/BasicSetting.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..b978175 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -283,11 +283,8 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
-
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = T(std::forward<Args>(args)...); // also what the real-time thread itself sees from now on
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 766fa7519f863b4815e6068a39c5a74a921b10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 07/52] fix: transaction list spin-lock excludes other threads

---
 src/disruptor/include/Transactions.hpp | 50 +++++++++-----------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 607d586..1134b4a 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -136,8 +136,7 @@ public:
             return { isCommitted, now };
         }
 
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         if (auto it = std::ranges::find_if(_transactionList, [&transactionToken](const auto &pair) { return pair.first == transactionToken; }); it != _transactionList.end()) {
@@ -159,35 +158,23 @@ public:
     }
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
-        bool expected  = false;
-        bool submitted = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        // take the matching transactions off the list first: commit(..) itself needs the list (see retireExpired)
+        std::list<std::pair<TransactionToken, settings::node<T>>> matching;
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
-
-#if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-        const auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
-            }
-            return false;
-        });
-#else
-        const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
+        for (auto it = _transactionList.begin(); it != _transactionList.end();) {
+            const auto current = it++;
+            if (transactionToken == NullToken<TransactionToken> || current->first == transactionToken) {
+                matching.splice(matching.end(), _transactionList, current);
             }
-            return false;
-        });
-        const auto last  = _transactionList.end();
-#endif
-
-        _transactionList.erase(first, last);
+        }
         std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
 
+        for (auto &setting : matching) {
+            commit(std::move(*setting.second.value), now);
+        }
+        const bool submitted = !matching.empty();
+
         return { submitted, now };
     }
 
@@ -208,8 +195,7 @@ public:
 
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
-        bool                          expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
         result.reserve(_transactionList.size());
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
@@ -249,8 +235,7 @@ public:
 
     bool retireStaged(const TransactionToken &transactionToken = NullToken<TransactionToken>) {
         bool retired  = false;
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
 
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
@@ -280,8 +265,7 @@ public:
     void retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
-            bool expected = false;
-            while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+            while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
                 ;
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
             const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
-- 
2.43.0


From ca58d291152ae59e74ec6d8c26fe2959253858d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 08/52] fix: settings are committed, modified and expired one
 at a time

---
 src/disruptor/include/Transactions.hpp | 42 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 1134b4a..feaad13 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -7,6 +7,7 @@
 #include <concepts>
 #include <functional>
 #include <list>
+#include <mutex>
 #include <unordered_map>
 #include <utility>
 
@@ -15,6 +16,7 @@
 #include <disruptor/RingBuffer.hpp>
 #include <opencmw.hpp>
 #include <ReaderWriterLock.hpp>
+#include <SpinWait.hpp>
 #include <TimingCtx.hpp>
 
 namespace opencmw {
@@ -99,6 +101,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
+    alignas(disruptor::kCacheLine) AtomicMutex<> _updateLock; // one commit, modification or expiry at a time: each builds on the result of the previous
     alignas(disruptor::kCacheLine) mutable std::atomic<bool> _transactionListLock{ false };
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
@@ -124,13 +127,17 @@ public:
 
     TransactionResult stage(T &&t, const TransactionToken &transactionToken = NullToken<TransactionToken>, const TimeStamp &now = std::chrono::system_clock::now()) {
         if (transactionToken.empty()) {
-            const auto isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
-                const auto oldValue  = get();
-                eventData.value      = std::make_shared<U>(_onCommit(*oldValue.value, FWD(t)));
-                eventData.validSince = now;
-                eventData.lastAccess = now;
-                _sequenceHead->setValue(sequence);
-            });
+            bool isCommitted;
+            {
+                std::scoped_lock updateGuard(_updateLock);
+                isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
+                    const auto oldValue  = get();
+                    eventData.value      = std::make_shared<U>(_onCommit(*oldValue.value, FWD(t)));
+                    eventData.validSince = now;
+                    eventData.lastAccess = now;
+                    _sequenceHead->setValue(sequence);
+                });
+            }
             retireExpired();
 
             return { isCommitted, now };
@@ -182,13 +189,17 @@ public:
     requires std::is_invocable_r_v<U, Fn &&, const U &>
     bool
     modifySetting(Fn &&modFunction, const TimeStamp &now = std::chrono::system_clock::now()) {
-        const auto result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
-            const auto oldValue  = get();
-            eventData.value      = std::make_shared<U>(modFunction(*oldValue.value));
-            eventData.validSince = now;
-            eventData.lastAccess = now;
-            _sequenceHead->setValue(sequence);
-        });
+        bool result;
+        {
+            std::scoped_lock updateGuard(_updateLock);
+            result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
+                const auto oldValue  = get();
+                eventData.value      = std::make_shared<U>(modFunction(*oldValue.value));
+                eventData.validSince = now;
+                eventData.lastAccess = now;
+                _sequenceHead->setValue(sequence);
+            });
+        }
         retireExpired();
         return result;
     }
@@ -277,7 +288,8 @@ public:
             std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         }
 
-        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        std::scoped_lock updateGuard(_updateLock);
+        auto             guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
         // expire old settings based on count
         while (_sequenceTail->value() != _sequenceHead->value() && (_sequenceHead->value() - _sequenceTail->value() > static_cast<std::int64_t>(N_HISTORY - BUFFER_MARGIN))) {
             [[maybe_unused]] auto unusedTail = _sequenceTail->incrementAndGet();
-- 
2.43.0


From 0740e8e02fa2099478a944918801ac69a4e0087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 09/52] fix: read the history only while its tail cannot move

---
 src/disruptor/include/Transactions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index feaad13..a682d23 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -120,7 +120,7 @@ public:
         _ringBuffer->addGatingSequences(std::vector{ _sequenceHead, _sequenceTail });
     }
     [[nodiscard]] std::size_t nHistory() const noexcept {
-        _historyLock.scopedGuard<ReaderWriterLockType::READ>();
+        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>(); // to prevent the writer/clean-up task from moving the tail past the head read here
         return static_cast<std::size_t>(_sequenceHead->value() - _sequenceTail->value() + 1);
     }
     ReaderWriterLock &historyLock() noexcept { return _historyLock; }
@@ -219,8 +219,8 @@ public:
     }
 
     [[nodiscard]] Node get(const TimeStamp &timeStamp) const {
-        auto lHead = _sequenceHead->value();
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>(); // to prevent the writer/clean-up task to potentially expire a node at the tail
+        auto lHead = _sequenceHead->value();
         while ((*_ringBuffer)[lHead].validSince > timeStamp && lHead != _sequenceTail->value()) {
             lHead--;
         }
-- 
2.43.0


From b93b79a98c69899b15aec35139eb90ada76b1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:03 +0000
Subject: [PATCH 10/52] fix: settings used within the time-out do not expire

---
 src/disruptor/include/Transactions.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index a682d23..e96508c 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -297,12 +297,8 @@ public:
         // expire old settings based on time
         if constexpr (timeOut > 0) {
             auto tailPosition = _sequenceTail->value();
-            while (tailPosition != _sequenceHead->value()) {
-                if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                    tailPosition = _sequenceTail->incrementAndGet();
-                } else {
-                    tailPosition++;
-                }
+            while (tailPosition != _sequenceHead->value() && (*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+                tailPosition = _sequenceTail->incrementAndGet();
             }
         }
     }
-- 
2.43.0


From 61ec19217cf3b39982efda4fa80c7c2c6a94c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:58 +0000
Subject: [PATCH 11/52] fix: context setting results stay valid after later
 commits

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index e96508c..fe8887d 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -49,7 +49,7 @@ struct TransactionResult {
 template<typename T>
 struct CtxResult {
     const TimingCtx           timingCtx;
-    const settings::node<T>  &settingValue;
+    const settings::node<T>   settingValue; // shares ownership of the value: remains valid also when the setting is replaced or retired
 
     explicit(false) constexpr operator TimingCtx const &() const noexcept { return timingCtx; }
     explicit(false) constexpr operator T const &() const noexcept { return settingValue; }
-- 
2.43.0


From 6f5a73ad6922c068cadd4746e03f576eea33013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:06 +0000
Subject: [PATCH 12/52] fix: context setting expiry does not modify maps in use
 and honours a disabled time-out

---
 src/disruptor/include/Transactions.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index fe8887d..62160bc 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -204,6 +204,17 @@ public:
         return result;
     }
 
+    /// replaces the current setting without adding to the history
+    template<class Fn>
+    requires std::is_invocable_r_v<U, Fn &&, const U &>
+    void
+    replaceCurrent(Fn &&modFunction) {
+        std::scoped_lock updateGuard(_updateLock);
+        auto             guard   = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        auto            &current = (*_ringBuffer)[_sequenceHead->value()];
+        current.value            = std::make_shared<U>(modFunction(std::as_const(*current.value)));
+    }
+
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
         while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
@@ -398,9 +409,14 @@ public:
     [[nodiscard]] std::size_t                   nCtxHistory(const std::int64_t idx = 0) const { return _setting.get(idx).value->size(); }
     [[nodiscard]] std::vector<TransactionToken> getPendingTransactions() const { return _setting.getPendingTransactions(); }
     void                                        retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
-        _setting.historyLock().template scopedGuard<ReaderWriterLockType::WRITE>();
         _setting.retireExpired(now);
-        retireOldSettings(*_setting.get().value, now);
+        if constexpr (timeOut > 0) {
+            _setting.replaceCurrent([this, &now](const std::unordered_map<TimingCtx, settings::node<T>> &oldSetting) {
+                auto newSetting = oldSetting; // N.B. the old one may still be in use by concurrent readers
+                retireOldSettings(newSetting, now);
+                return newSetting;
+            });
+        }
     }
     template<bool exactMatch = false>
     [[maybe_unused]] bool retire(const TimingCtx &ctx, const TimeStamp &now = std::chrono::system_clock::now()) {
-- 
2.43.0


From 6c99b4676d7c6b9d16f2a1958ec0fbaff74aedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:47 +0000
Subject: [PATCH 13/52] fix: a service registered under the requested name is
 preferred to its prefixes

---
 src/majordomo/include/majordomo/Broker.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..35177b5 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -762,6 +762,9 @@ private:
             auto n  = removeSlash(name);
             auto sn = removeSlash(serviceName);
             if (!sn.starts_with(n)) continue;
+            if (sn.size() == n.size()) { // a service registered under exactly that name comes before its prefixes
+                return std::addressof(service);
+            }
             if (!bestService || lessByLength(n, bestServiceName)) {
                 bestServiceName = n;
                 bestService     = std::addressof(service);
-- 
2.43.0


From 880a45a2d226c2c47755c1679c2491a888698b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 14/52] fix: broker sends heartbeats once per interval

---
 src/majordomo/include/majordomo/Broker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 35177b5..02d4906 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -532,8 +532,9 @@ public:
             _restServer->populatePollerItems(_pollerItems);
         }
 
-        // N.B. block until data arrived or for at most one heart-beat interval
-        return zmq::invoke(zmq_poll, _pollerItems.data(), static_cast<int>(_pollerItems.size()), settings.heartbeatInterval.count()).isValid();
+        // N.B. block until data arrived or until the next heart-beat is due, i.e. for at most one heart-beat interval
+        const auto timeout = std::clamp(std::chrono::ceil<std::chrono::milliseconds>(_heartbeatAt - Clock::now()), std::chrono::milliseconds(0), settings.heartbeatInterval);
+        return zmq::invoke(zmq_poll, _pollerItems.data(), static_cast<int>(_pollerItems.size()), timeout.count()).isValid();
     }
 
     void cleanup() {
-- 
2.43.0


From a1e7387a01b2820495043464386dff56538c2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 15/52] fix: active clients do not expire

---
 src/majordomo/include/majordomo/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 02d4906..8842f0c 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -721,6 +721,7 @@ private:
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
+            client->second.expiry   = updatedClientExpiry();
             client->second.requests.emplace_back(std::move(message));
 
             return true;
-- 
2.43.0


From ec8b88b65cbe63be8515dd6fad65ef4923ae7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:50 +0000
Subject: [PATCH 16/52] fix: a worker whose reply is dropped is available again

---
 src/majordomo/include/majordomo/Broker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 8842f0c..951013b 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -988,8 +988,9 @@ private:
         case mdp::Command::Final: {
             if (knownWorker) {
                 auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
-                if (client == _clients.end()) {
-                    return; // drop if client unknown/disappeared
+                if (client == _clients.end()) { // drop if client unknown/disappeared
+                    workerWaiting(worker);
+                    return;
                 }
 
                 message.sourceId     = message.serviceName; // serviceName=clientSourceID
-- 
2.43.0


From 187458f112bd73c01a1928407d86a25cee3fc152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 17/52] fix: repeated or unmatched (un)subscriptions of a
 client do not affect the others

---
 src/majordomo/include/majordomo/Broker.hpp | 43 +++++++++++-----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 951013b..9a32997 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -585,6 +585,23 @@ private:
         }
     }
 
+    void subscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        if (_subscribedClientsByTopic[topic].insert(clientId).second) {
+            subscribe(topic);
+        }
+    }
+
+    void unsubscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        auto it = _subscribedClientsByTopic.find(topic);
+        if (it == _subscribedClientsByTopic.end() || it->second.erase(clientId) == 0) {
+            return; // not a subscriber: must not affect the others
+        }
+        if (it->second.empty()) {
+            _subscribedClientsByTopic.erase(it);
+        }
+        unsubscribe(topic);
+    }
+
     bool receivePubMessage(const zmq::Socket &socket) {
         zmq::MessageFrame frame;
         const auto        result = frame.receive(socket, ZMQ_DONTWAIT);
@@ -633,9 +650,7 @@ private:
                 return;
             }
 
-            subscribe(subscription);
-            auto [it, inserted] = _subscribedClientsByTopic.try_emplace(subscription);
-            it->second.emplace(message.sourceId);
+            subscribeClient(subscription, message.sourceId);
         } break;
         case mdp::Command::Unsubscribe: {
             mdp::Topic subscription;
@@ -646,14 +661,7 @@ private:
                 return;
             }
 
-            unsubscribe(subscription);
-            auto it = _subscribedClientsByTopic.find(subscription);
-            if (it != _subscribedClientsByTopic.end()) {
-                it->second.erase(message.sourceId);
-                if (it->second.empty()) {
-                    _subscribedClientsByTopic.erase(it);
-                }
-            }
+            unsubscribeClient(subscription, message.sourceId);
         } break;
         default:
             break;
@@ -689,9 +697,7 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
-                auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                subscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -703,14 +709,7 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
-                auto it = _subscribedClientsByTopic.find(*subscription);
-                if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
-                    if (it->second.empty()) {
-                        _subscribedClientsByTopic.erase(it);
-                    }
-                }
+                unsubscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Heartbeat:
-- 
2.43.0


From de22f33728c24f3891c3b9232531e0100961f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:40 +0000
Subject: [PATCH 18/52] fix: topics of the publisher socket are withdrawn when
 their last subscriber leaves

---
 src/majordomo/include/majordomo/Broker.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 9a32997..cfe459c 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -11,6 +11,7 @@
 #include <string>
 #include <string_view>
 #include <unordered_map>
+#include <unordered_set>
 #include <utility>
 
 #include <format>
@@ -271,6 +272,7 @@ private:
     SubscriptionMatcher                                     _subscriptionMatcher;
     std::unordered_map<mdp::Topic, std::set<std::string>>   _subscribedClientsByTopic; // topic -> client IDs
     std::unordered_map<mdp::Topic, int>                     _subscribedTopics;         // topic -> subscription count
+    std::unordered_set<mdp::Topic>                          _topicsOfPubSocket;        // topics with at least one subscriber of the publisher socket
     std::unordered_map<std::string, Client>                 _clients;
     std::unordered_map<std::string, Worker>                 _workers;
     std::unordered_map<std::string, Service>                _services;
@@ -624,9 +626,12 @@ private:
             // malformed topic, ignore
             return false;
         }
+        // XPUB forwards every subscription but only the unsubscription of the last subscriber, so these are not counted
         if (data[0] == '\x1') {
-            subscribe(*topic);
-        } else {
+            if (_topicsOfPubSocket.insert(*topic).second) {
+                subscribe(*topic);
+            }
+        } else if (_topicsOfPubSocket.erase(*topic) > 0) {
             unsubscribe(*topic);
         }
         return true;
-- 
2.43.0


From 18ec07a6b8e9e3e928f6785e155d5d1f0118e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:41 +0000
Subject: [PATCH 19/52] fix: worker does not clean up a notification channel
 that is in use

---
 src/majordomo/include/majordomo/Worker.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..3171e18 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -141,7 +141,7 @@ public:
         message.command      = mdp::Command::Notify;
         message.serviceName  = serviceName.data(); // TODO unnecessary copy
         message.rbac         = _defaultRbacToken;
-        return notificationHandlerForThisThread().send(std::move(message));
+        return sendNotification(std::move(message));
     }
 
     void disconnect() {
@@ -194,17 +194,18 @@ private:
         return std::format("inproc://workers{}-{}/notify", name, worker_detail::nextWorkerId());
     }
 
-    NotificationHandler &notificationHandlerForThisThread() {
+    bool sendNotification(mdp::Message &&message) {
+        // N.B. the locks are held while sending: the handler must not be cleaned up in the meantime
         const auto threadId = std::this_thread::get_id();
         {
             const std::shared_lock readLock(_notificationHandlersLock); // optimistic read -- thread is known/already initialised
-            if (_notificationHandlers.contains(threadId)) {
-                return _notificationHandlers.at(threadId);
+            if (const auto it = _notificationHandlers.find(threadId); it != _notificationHandlers.end()) {
+                return it->second.send(std::move(message));
             }
         }
         const std::unique_lock writeLock(_notificationHandlersLock); // nothing found -> need to allocate/initialise new socket
-        _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
-        return _notificationHandlers.at(threadId);
+        const auto [it, inserted] = _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
+        return it->second.send(std::move(message));
     }
 
     void cleanupNotificationHandlers() {
-- 
2.43.0


From 3662b0c3349ab0ba02a11305cd7c0f29348bc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:33 +0000
Subject: [PATCH 20/52] fix: a worker the broker does not know (any more)
 registers again instead of ending

---
 src/majordomo/include/majordomo/Broker.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index cfe459c..65c3167 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -545,7 +545,7 @@ public:
         while (it != _workers.end()) {
             auto &worker = it->second;
             ++it;
-            disconnectWorker(worker);
+            disconnectWorker(worker, "broker shutdown");
         }
     }
 
@@ -1010,7 +1010,7 @@ private:
 
                 workerWaiting(worker);
             } else {
-                disconnectWorker(worker);
+                disconnectWorker(worker, "unknown worker"); // not a shutdown: the worker shall register (again)
             }
             break;
         }
@@ -1026,7 +1026,7 @@ private:
             if (knownWorker) {
                 worker.expiry = updatedWorkerExpiry();
             } else {
-                disconnectWorker(worker);
+                disconnectWorker(worker, "unknown worker"); // not a shutdown: the worker shall register (again)
             }
         default:
             break;
@@ -1043,13 +1043,13 @@ private:
         _workers.erase(worker.id);
     }
 
-    void disconnectWorker(Worker &worker) {
+    void disconnectWorker(Worker &worker, std::string_view reason) {
         BrokerMessage disconnect;
         disconnect.protocolName = mdp::workerProtocol;
         disconnect.command      = mdp::Command::Disconnect;
         disconnect.sourceId     = worker.id;
         disconnect.serviceName  = worker.serviceName;
-        disconnect.data         = IoBuffer("broker shutdown");
+        disconnect.data         = IoBuffer(reason.data(), reason.size());
         disconnect.rbac         = _rbac;
         zmq::send(std::move(disconnect), worker.socket).assertSuccess();
         deleteWorker(worker);
-- 
2.43.0


From fe51baec3b3a678159720e25f46eaf6504c6a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:44 +0000
Subject: [PATCH 21/52] fix: no requests are given to a worker that signed off

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 65c3167..3335037 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -986,7 +986,7 @@ private:
             break;
         }
         case mdp::Command::Disconnect:
-            // deleteWorker(worker); // TODO handle? also commented out in java impl
+            deleteWorker(worker); // no further requests for a worker that signed off
             break;
         case mdp::Command::Partial:
         case mdp::Command::Final: {
-- 
2.43.0


From 478ee073a0b7578cfc64d1fa14a8cc47678345c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 22/52] fix: messages with a malformed topic are ignored

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..63cf6cf 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const std::exception &) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From a58d7b899d203802950f2d289497673cf63a7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 23/52] fix: malformed requests of internal services do not end
 the broker

---
 src/majordomo/include/majordomo/Broker.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 3335037..c86c6b2 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -866,7 +866,14 @@ private:
 
             if (auto service = bestMatchingService(clientMessage.serviceName)) {
                 if (service->internalHandler) {
-                    auto reply = service->internalHandler(std::move(clientMessage));
+                    BrokerMessage reply = clientMessage;
+                    try {
+                        reply = service->internalHandler(std::move(clientMessage));
+                    } catch (const std::exception &e) { // malformed request
+                        reply.command = mdp::Command::Final;
+                        reply.data.clear();
+                        reply.error = e.what();
+                    }
                     if (client.id == kRestSourceId) {
                         if (_restServer) {
                             _restServer->handleResponse(std::move(reply));
-- 
2.43.0


From 61ec2d40ea7bb382bb8d20fe8ad50595ea2e0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 24/52] fix: only requests of clients are forwarded to workers

---
 src/majordomo/include/majordomo/Broker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c86c6b2..500a0bc 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -719,9 +719,12 @@ private:
             }
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
+                return true;
+            case mdp::Command::Get:
+            case mdp::Command::Set:
                 break;
-            default:
-                break;
+            default: // not a request, must not reach a worker
+                return true;
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
-- 
2.43.0


From 3c63fe848130fb0205546bdefdefa897fa26469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 25/52] fix: only peers that registered as a worker are given
 requests

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 500a0bc..b2d7985 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -979,7 +979,10 @@ private:
     void processWorker(const zmq::Socket &socket, BrokerMessage &&message) {
         const auto &serviceId   = message.sourceId;
         const auto  knownWorker = _workers.contains(serviceId);
-        auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
+        Worker      unknownWorker(socket, serviceId, message.serviceName, updatedWorkerExpiry());
+        auto       &worker      = knownWorker                                 ? _workers.at(serviceId)
+                                : message.command == mdp::Command::Ready ? _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second
+                                                                         : unknownWorker;
 
         switch (message.command) {
         case mdp::Command::Ready: {
-- 
2.43.0


From 48000d23be44c255f7231296f9bccb158ba578a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:12 +0000
Subject: [PATCH 26/52] fix: a worker is waiting for a request once

---
 src/majordomo/include/majordomo/Broker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index b2d7985..ebead69 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -837,7 +837,9 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        if (std::ranges::find(service->second.waiting, &worker) == service->second.waiting.end()) { // e.g. registered twice
+            service->second.waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
-- 
2.43.0


From 9848678d03ce7683b9950e3c5eafa2da602200cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:33 +0000
Subject: [PATCH 27/52] fix: notifications are not taken for the reply to the
 first request

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 87e383a..90dcd39 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -345,7 +345,7 @@ class MDClientCtx : public ClientBase {
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
-    std::size_t                                                    _request_id = 0;
+    std::size_t                                                    _request_id = 1; // 0 marks messages which are not replies to a request
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
-- 
2.43.0


From 71b9087117b6e88d96b6384d6c75f28832a6ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:33 +0000
Subject: [PATCH 28/52] fix: unsubscribing removes the callback of the
 subscription

---
 src/client/include/Client.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 90dcd39..3328f04 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -388,15 +388,15 @@ public:
 
     void request(Command cmd) override {
         std::size_t req_id = 0;
-        if (cmd.callback) {
+        if (cmd.command == mdp::Command::Unsubscribe) {
+            _subscriptions.erase(mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic());
+        } else if (cmd.callback) {
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
                 req_id = _request_id++;
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
                 _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
-            } else if (cmd.command == mdp::Command::Unsubscribe) {
-                _requests.erase(0); // todo: lookup correct subscription
             }
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
-- 
2.43.0


From d5fd6b68adb8c64d4aa94e9109fb08a1e0b742f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:12 +0000
Subject: [PATCH 29/52] fix: callbacks of requests and subscriptions are
 registered and looked up one at a time

---
 src/client/include/Client.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 3328f04..31a0c10 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <ClientContext.hpp>
 #include <MdpMessage.hpp>
+#include <mutex>
 #include <opencmw.hpp>
 #include <Topic.hpp>
 #include <URI.hpp>
@@ -341,6 +342,7 @@ class MDClientCtx : public ClientBase {
     zmq::Socket                                                    _control_socket_recv;
     std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
+    std::mutex                                                     _callbackMutex; // guards _requests and _subscriptions: commands are issued by other threads than the polling one
     std::unordered_map<std::size_t, Request>                       _requests;
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
@@ -387,7 +389,8 @@ public:
     }
 
     void request(Command cmd) override {
-        std::size_t req_id = 0;
+        std::size_t      req_id = 0;
+        std::unique_lock lock(_callbackMutex);
         if (cmd.command == mdp::Command::Unsubscribe) {
             _subscriptions.erase(mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic());
         } else if (cmd.callback) {
@@ -399,6 +402,7 @@ public:
                 _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             }
         }
+        lock.unlock();
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
@@ -462,12 +466,23 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (_subscriptions.contains(receivedEvent.serviceName)) {
-                        _subscriptions.at(receivedEvent.serviceName).callback(receivedEvent); // callback
+                    decltype(Subscription::callback) subscriptionCallback;
+                    decltype(Request::callback)      requestCallback;
+                    {
+                        std::lock_guard lock(_callbackMutex);
+                        if (auto it = _subscriptions.find(receivedEvent.serviceName); it != _subscriptions.end()) {
+                            subscriptionCallback = it->second.callback;
+                        }
+                        if (auto node = _requests.extract(receivedEvent.id)) {
+                            requestCallback = std::move(node.mapped().callback);
+                        }
                     }
-                    if (_requests.contains(receivedEvent.id)) {
-                        _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-                        _requests.erase(receivedEvent.id);
+                    // called without holding the lock, callbacks may issue further commands
+                    if (subscriptionCallback) {
+                        subscriptionCallback(receivedEvent);
+                    }
+                    if (requestCallback) {
+                        requestCallback(receivedEvent);
                     }
                     // perform housekeeping duties if necessary
                     if (auto now = std::chrono::system_clock::now(); nextHousekeeping < now) {
-- 
2.43.0


From 8b06ff53c2b06121bcc821b6cd73967e39577812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:12 +0000
Subject: [PATCH 30/52] fix: client polling thread is started after what it
 polls is set up

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 31a0c10..9ae3bda 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -352,9 +352,9 @@ class MDClientCtx : public ClientBase {
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
         : _zctx{ zeromq_context }, _control_socket_send(zeromq_context, ZMQ_PAIR), _control_socket_recv(zeromq_context, ZMQ_PAIR), _timeout(timeout), _clientId(std::move(clientId)) {
-        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
         zmq::invoke(zmq_bind, _control_socket_send, "inproc://mdclientControlSocket").assertSuccess();
         _pollitems.push_back({ .socket = _control_socket_recv.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
     }
 
     std::vector<std::string> protocols() override {
-- 
2.43.0


From f4ee61aed555a2726732165363307559567f7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:08 +0000
Subject: [PATCH 31/52] fix: queued requests do not wait for the next heartbeat

---
 src/majordomo/include/majordomo/Broker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index ebead69..c0616e3 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -1,6 +1,7 @@
 #ifndef OPENCMW_MAJORDOMO_BROKER_H
 #define OPENCMW_MAJORDOMO_BROKER_H
 
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <chrono>
@@ -519,6 +520,7 @@ public:
             anythingReceived |= receivePubMessage(_pubSocket);
 
             processClients();
+            anythingReceived |= std::ranges::any_of(_clients, [](const auto &c) { return !c.second.requests.empty(); }); // one request is processed at a time
 
             if (loopCount % 10 == 0) { // perform maintenance task every 10th iteration
                 purgeWorkers();
-- 
2.43.0


From d6de47321283d8d195ded6cc051a3268aee89f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:22 +0000
Subject: [PATCH 32/52] fix: synchronous signal directory calls do not miss
 their reply

The callback set the flag and notified without holding the mutex of the
waiting thread: a reply arriving between the check of the predicate and
the wait was lost and the call blocked for ever; a spurious wake-up
between setting the flag and notifying destroyed the condition variable
in use.
---
 src/services/include/services/dns_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_client.hpp b/src/services/include/services/dns_client.hpp
index a9508d2..6b503a0 100644
--- a/src/services/include/services/dns_client.hpp
+++ b/src/services/include/services/dns_client.hpp
@@ -93,7 +93,8 @@ public:
         std::condition_variable cv;
         ReturnType              ret;
 
-        (this->*function)([&received, &cv, &ret](const ReturnType &&r) {
+        (this->*function)([&received, &m, &cv, &ret](const ReturnType &&r) {
+            std::lock_guard lock{ m }; // the waiting thread must neither miss the notification nor return before it was sent
             ret      = std::move(r);
             received = true;
             cv.notify_one();
-- 
2.43.0


From 43e64957865a452ef3a19d80ab6613f9076e4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:22 +0000
Subject: [PATCH 33/52] fix: signals without a rate are listed once after they
 were registered again

NaN, the default rate, never compares equal, so registering such a
signal again did not replace the previous entry.
---
 src/services/include/services/dns_types.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 0eb191c..3fa95ea 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -1,6 +1,7 @@
 #ifndef DNS_TYPES_HPP
 #define DNS_TYPES_HPP
 
+#include <cmath>
 #include <MIME.hpp>
 #include <opencmw.hpp>
 
@@ -18,7 +19,12 @@ struct Entry {
     float       signal_rate{ std::numeric_limits<float>::quiet_NaN() };
     std::string signal_type;
 
-    bool        operator==(const Entry &b) const = default;
+    bool        operator==(const Entry &b) const noexcept {
+        // an unknown rate (NaN, the default) is the same as another unknown rate
+        return protocol == b.protocol && hostname == b.hostname && port == b.port && service_name == b.service_name && service_type == b.service_type
+            && signal_name == b.signal_name && signal_unit == b.signal_unit && signal_type == b.signal_type
+            && (signal_rate == b.signal_rate || (std::isnan(signal_rate) && std::isnan(b.signal_rate)));
+    }
 };
 
 struct QueryEntry : Entry {
-- 
2.43.0


From 39880db51f3ce02576f10aa875a0539b0b2fe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:22 +0000
Subject: [PATCH 34/52] fix: expired and replaced signals do not come back
 after a restart

---
 src/services/include/services/dns_storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_storage.hpp b/src/services/include/services/dns_storage.hpp
index 8fd0e91..362f25a 100644
--- a/src/services/include/services/dns_storage.hpp
+++ b/src/services/include/services/dns_storage.hpp
@@ -142,7 +142,8 @@ bool DataStorage<EntryType, FilterType, SerialiseType>::loadDataFromFile(const c
 template<class EntryType, class FilterType, class SerialiseType>
 bool DataStorage<EntryType, FilterType, SerialiseType>::saveDataToFile(const char *filepath) {
     std::vector<EntryType> entries;
-    std::for_each(_entries.begin(), _entries.end(), [&entries](auto &e) { entries.push_back({ e }); });
+    const auto             now = StorageEntryType::clock::now();
+    std::for_each(_entries.begin(), _entries.end(), [&entries, &now](auto &e) { if (e.ttl > now) entries.push_back({ e }); }); // the time to live is not stored: expired entries would come back
     SerialiseType k{ entries };
     IoBuffer      outBuffer;
     opencmw::serialise<opencmw::YaS>(outBuffer, k);
-- 
2.43.0


From b91a969a305dfe3d8d866e6c864e60dda49d03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:22 +0000
Subject: [PATCH 35/52] fix: a failed or interrupted save keeps the stored
 signals

The file was truncated before the new content was written, and write
errors went unnoticed: a crash or a full disk left a file which could
not be read, and the service did not start any more.
---
 src/services/include/services/dns_storage.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_storage.hpp b/src/services/include/services/dns_storage.hpp
index 362f25a..ddc5d36 100644
--- a/src/services/include/services/dns_storage.hpp
+++ b/src/services/include/services/dns_storage.hpp
@@ -148,10 +148,15 @@ bool DataStorage<EntryType, FilterType, SerialiseType>::saveDataToFile(const cha
     IoBuffer      outBuffer;
     opencmw::serialise<opencmw::YaS>(outBuffer, k);
 
-    std::ofstream os{ filepath, std::ios::binary };
+    // what was stored before is only replaced once the new data is complete
+    const std::string tmpPath = std::string(filepath) + ".tmp";
+    std::ofstream     os{ tmpPath, std::ios::binary };
     if (!os.is_open()) throw std::runtime_error("Could not open file for writing DataStorage");
 
     os.write(reinterpret_cast<const char *>(outBuffer.data()), static_cast<long>(outBuffer.size()));
+    os.close();
+    if (os.fail()) throw std::runtime_error("Could not write DataStorage");
+    std::filesystem::rename(tmpPath, filepath);
 
     return true;
 }
-- 
2.43.0


From e3385ff66ce14cef68b61f76612814c19b419961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 36/52] fix: signals can be looked up by their unit

All other fields of the filter were honoured, the unit was ignored:
deleting or querying with a unit also affected signals of other units.
---
 src/services/include/services/dns_types.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 3fa95ea..52f834e 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -38,7 +38,8 @@ struct QueryEntry : Entry {
                         check_string(service_name)
                                 check_string(service_type)
                                         check_string(signal_name)
-                                                check_string(signal_type)
+                                                check_string(signal_unit)
+                                                        check_string(signal_type)
 #undef check_string
                                                         if (port != -1 && port != entry.port) return false;
         if (!std::isnan(signal_rate) && signal_rate != entry.signal_rate) return false;
-- 
2.43.0


From 82306a4d7941128c6eeea5b519e4627d368c0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:47 +0000
Subject: [PATCH 37/52] fix: a worker that registers again forgets withdrawn
 subscriptions

---
 src/majordomo/include/majordomo/Worker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 3171e18..5c43db5 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -384,6 +384,10 @@ private:
         _pollerItems[1].socket = nullptr;
         _workerSocket.reset();
         _pubSocket.reset();
+        { // the broker reports all its subscriptions to the new socket, unsubscriptions not read from the previous one are lost
+            std::lock_guard lockGuard(_activeSubscriptionsLock);
+            _activeSubscriptions.clear();
+        }
 
         _workerSocket.emplace(_context, ZMQ_DEALER);
 
-- 
2.43.0


From b7273725677909195cf0493f1f97055997ad196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:07 +0000
Subject: [PATCH 38/52] fix: the key store does not answer with uninitialised
 memory for unknown keys

---
 src/services/include/services/KeyStore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/include/services/KeyStore.hpp b/src/services/include/services/KeyStore.hpp
index 6957dbe..29b58ae 100644
--- a/src/services/include/services/KeyStore.hpp
+++ b/src/services/include/services/KeyStore.hpp
@@ -7,7 +7,7 @@
 namespace opencmw {
 
 struct KeystoreContext {
-    unsigned char dummy;
+    unsigned char dummy = 0;
 };
 struct KeystoreInput {
     std::string keyHash;
@@ -17,7 +17,7 @@ struct KeystoreOutput {
     std::string role;
     std::string key;
     // we have to use int64_t, as std::chrono is not supported over the wire
-    int64_t expiryDate;
+    int64_t expiryDate = 0;
 };
 
 } // namespace opencmw
-- 
2.43.0


From 9bb36308f9c7bdfbdc638505c7efd3eb1c0f338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:07 +0000
Subject: [PATCH 39/52] fix: public keys of a wrong size are refused instead of
 overflowing a buffer

---
 src/services/include/services/KeyStore.hpp    | 3 +++
 src/services/include/services/OAuthClient.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/services/include/services/KeyStore.hpp b/src/services/include/services/KeyStore.hpp
index 29b58ae..760d746 100644
--- a/src/services/include/services/KeyStore.hpp
+++ b/src/services/include/services/KeyStore.hpp
@@ -46,6 +46,9 @@ public:
         : KeystoreWorkerType(broker, {}) { init(); };
 
     static std::string keyHash(const std::string &key) {
+        if (key.size() != crypto_sign_PUBLICKEYBYTES) {
+            throw std::invalid_argument(std::format("invalid public key size {}", key.size()));
+        }
         majordomo::cryptography::PublicKey k;
         std::copy(key.begin(), key.end(), k.key);
         const auto res = majordomo::cryptography::publicKeyHash(k);
diff --git a/src/services/include/services/OAuthClient.hpp b/src/services/include/services/OAuthClient.hpp
index d37ebaa..e76a732 100644
--- a/src/services/include/services/OAuthClient.hpp
+++ b/src/services/include/services/OAuthClient.hpp
@@ -308,6 +308,9 @@ private:
         OAuthWorkerType::setCallback([this](const majordomo::RequestContext &rawCtx, const OAuthContext &context, const OAuthInput &in, OAuthContext &replyContext, OAuthOutput &out) {
             if (in.secret.empty() && !in.publicKey.empty()) {
                 // first stage, client gets a secret in the response back plus an URI to authorize at
+                if (in.publicKey.size() != crypto_sign_PUBLICKEYBYTES) {
+                    throw std::invalid_argument(std::format("invalid public key size {}", in.publicKey.size()));
+                }
                 constexpr std::size_t secretLength = 64;
                 const auto            secret       = makeRandom<std::string>(secretLength);
                 // keys expire in 1 year by default
-- 
2.43.0


From e1a0153ec8cbd372cbe811f4be19118eef705bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 40/52] fix: the key store and pending authorisations are not
 changed while they are read

---
 src/services/include/services/KeyStore.hpp    |  9 ++++++++-
 src/services/include/services/OAuthClient.hpp | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/services/include/services/KeyStore.hpp b/src/services/include/services/KeyStore.hpp
index 760d746..d3a22a7 100644
--- a/src/services/include/services/KeyStore.hpp
+++ b/src/services/include/services/KeyStore.hpp
@@ -4,6 +4,9 @@
 #include <majordomo/Cryptography.hpp>
 #include <majordomo/Worker.hpp>
 
+#include <map>
+#include <mutex>
+
 namespace opencmw {
 
 struct KeystoreContext {
@@ -37,6 +40,7 @@ using KeystoreWorkerType = majordomo::Worker<"/keystore", KeystoreContext, Keyst
 class KeystoreWorker : public KeystoreWorkerType {
 private:
     std::map<std::string, RoleKey> _keys;
+    std::mutex                     _keysLock; // keys are added from other threads than the worker's
 
 public:
     explicit KeystoreWorker(URI<uri_check::STRICT> brokerAddress, const zmq::Context &context, majordomo::Settings settings = {})
@@ -56,12 +60,15 @@ public:
     }
 
     void addKey(const RoleKey &roleKey) {
-        _keys[keyHash(roleKey.key)] = roleKey;
+        const auto      hash = keyHash(roleKey.key);
+        std::lock_guard lock(_keysLock);
+        _keys[hash] = roleKey;
     }
 
 private:
     void init() {
         KeystoreWorkerType::setCallback([this](const majordomo::RequestContext &rawCtx, const KeystoreContext &context, const KeystoreInput &in, KeystoreContext &replyContext, KeystoreOutput &out) {
+            std::lock_guard lock(_keysLock);
             if (_keys.contains(in.keyHash)) {
                 out = _keys.at(in.keyHash);
             }
diff --git a/src/services/include/services/OAuthClient.hpp b/src/services/include/services/OAuthClient.hpp
index e76a732..79e4107 100644
--- a/src/services/include/services/OAuthClient.hpp
+++ b/src/services/include/services/OAuthClient.hpp
@@ -292,11 +292,20 @@ public:
 private:
     std::map<std::string, std::string> _secrets;
     std::map<std::string, RoleKey>     _pendingKeys;
+    std::mutex                         _lock; // for the above, the endpoint callback is called by threads of the HTTP server
     OAuthClient                        _client;
     KeystoreWorker                     _keystore;
     std::thread                        _keystoreThread;
+
+    std::optional<std::string>         codeFor(const std::string &secret) {
+        std::lock_guard lock(_lock);
+        const auto      it = _secrets.find(secret);
+        return it == _secrets.end() ? std::nullopt : std::optional(it->second);
+    }
+
     void                               init() {
         _client.setEndpointCallback([this](const std::string &code, const std::string &state) {
+            std::lock_guard lock(_lock);
             _secrets[state] = code;
             if (_pendingKeys.contains(state)) {
                 // add the key to the public key storage
@@ -315,12 +324,15 @@ private:
                 const auto            secret       = makeRandom<std::string>(secretLength);
                 // keys expire in 1 year by default
                 const auto expiresAt               = std::chrono::system_clock::now() + std::chrono::years(1);
-                _pendingKeys[secret]               = { in.scope, in.publicKey, expiresAt.time_since_epoch().count() };
+                {
+                    std::lock_guard lock(_lock);
+                    _pendingKeys[secret] = { in.scope, in.publicKey, expiresAt.time_since_epoch().count() };
+                }
                 out.authorizationUri               = _client.authorizationUri(in.scope, in.clientId, secret).str();
                 out.secret                         = secret;
-            } else if (_secrets.contains(in.secret)) {
+            } else if (const auto authCode = codeFor(in.secret)) {
                 // second stage, client has authorized and can get an access token
-                const auto code   = _secrets.at(in.secret);
+                const auto code   = *authCode;
                 const auto access = _client.requestToken(code, in.clientId);
                 out.accessToken   = access.accessToken._token;
                 out.refreshToken  = access.refreshToken._token;
-- 
2.43.0


From 046d5b8c7860d1125090b007d0a10777f93e1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 41/52] fix: RestServer: do not pass the result of a failed
 read as a length to nghttp2

After a read that filled the buffer exactly, the next read can return -1/EAGAIN,
which was passed as size (size_t)-1 to nghttp2_session_mem_recv2(). A read of 0
(end of stream) was ignored when errno still was EAGAIN.
---
 src/majordomo/include/majordomo/RestServer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 65160aa..f1ee5ab 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -2438,7 +2438,10 @@ struct RestServer {
         while (mightHaveMore) {
             std::array<uint8_t, 1024> buffer;
             ssize_t                   bytes_read = session->_socket.read(buffer.data(), sizeof(buffer));
-            if (bytes_read <= 0 && errno != EAGAIN) {
+            if (bytes_read < 0 && errno == EAGAIN) {
+                break; // nothing more to read for now
+            }
+            if (bytes_read <= 0) {
                 if (bytes_read < 0) {
                     HTTP_DBG("Server::read failed: {} {}", bytes_read, session->_socket.lastError());
                 }
-- 
2.43.0


From f5ebc8dc4b976fd3e9198ad27d3e3ce5c21bcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 42/52] fix: RestServer: process complete requests only,
 whatever the order in which they complete

The requests of a session, ordered by stream id, are not partitioned by 'complete':
a request whose body is still being received was answered with 'Invalid REST method',
or kept later complete ones waiting.
---
 src/majordomo/include/majordomo/RestServer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index f1ee5ab..e7a5f8a 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -676,13 +676,14 @@ struct SessionBase {
     }
 
     std::vector<Message> getMessages(IdGenerator &idGenerator) {
-        const auto           completeEnd = std::ranges::partition_point(_requestsByStreamId, [](const auto &pair) { return pair.second.complete; });
-
         std::vector<Message> result;
-        result.reserve(static_cast<std::size_t>(std::distance(_requestsByStreamId.begin(), completeEnd)));
 
-        for (auto it = _requestsByStreamId.begin(); it != completeEnd; ++it) {
+        for (auto it = _requestsByStreamId.begin(); it != _requestsByStreamId.end();) {
             auto &[streamId, request] = *it;
+            if (!request.complete) {
+                ++it;
+                continue;
+            }
 
             switch (request.method) {
             case RestMethod::Options:
@@ -703,9 +704,9 @@ struct SessionBase {
                 respondWithError(it->first, "Invalid REST method", kHttpError);
                 break;
             }
+            it = _requestsByStreamId.erase(it);
         }
 
-        _requestsByStreamId.erase(_requestsByStreamId.begin(), completeEnd);
         return result;
     }
 
-- 
2.43.0


From 0134c68ce7bac373676827850ba01557cb90faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 43/52] fix: WriteBuffer: keep the data when the socket's send
 buffer is full

send() reports a full buffer with -1/EAGAIN; the connection was dropped instead of
waiting until it can be written again.
---
 src/rest/include/rest/RestUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rest/include/rest/RestUtils.hpp b/src/rest/include/rest/RestUtils.hpp
index 0cb8d7b..57399af 100644
--- a/src/rest/include/rest/RestUtils.hpp
+++ b/src/rest/include/rest/RestUtils.hpp
@@ -469,7 +469,7 @@ struct WriteBuffer {
         std::size_t written = 0;
         while (size - written > 0) {
             const ssize_t n = socket.write(buffer.data() + written, size - written);
-            if (n == 0 && errno == EAGAIN) {
+            if (n < 0 && errno == EAGAIN) {
                 break;
             }
             if (n <= 0) {
-- 
2.43.0


From e78f6b22a9c91aa22c7ee319692a6382674d1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 44/52] fix: RestClient: get and set requests to an unusable
 endpoint are answered with an error

A host that cannot be resolved, or an unsupported scheme, ended the process with
std::bad_expected_access.
---
 src/client/include/RestClientNative.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 46c5f79..01b86f3 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -660,6 +660,10 @@ public:
                     case mdp::Command::Get:
                     case mdp::Command::Set: {
                         auto session   = ensureSession(ssl_ctx, sessions, sslSettings, cmd.topic);
+                        if (!session) {
+                            reportError(cmd, std::format("Unsupported endpoint '{}': {}", cmd.topic.str(), session.error()));
+                            continue;
+                        }
                         auto preferred = preferredMimeType(cmd.topic);
                         session.value()->submitRequest(std::move(cmd), mode, std::move(preferred), {});
                     } break;
-- 
2.43.0


From 7dca30027a93bcec5f9b7279e314cdb67af91a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 45/52] fix: RestClient: requests and subscriptions under way
 are told when the connection is lost

When the peer closed the connection, or reading or writing failed, the session was
removed without calling the callbacks of its pending requests. An end of stream was
ignored while errno still was EAGAIN.
---
 src/client/include/RestClientNative.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 01b86f3..ff5a411 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -764,6 +764,7 @@ public:
                     if (pollIt->revents & POLLOUT) {
                         if (!session->_writeBuffer.write(session->_session, session->_socket)) {
                             HTTP_DBG("Client: Failed to write to peer (fd={}): {}", session->_socket.fd, session->_socket.lastError());
+                            session->reportErrorToAllPendingRequests("Connection lost: failed to write to peer");
                             sessionIt = sessions.erase(sessionIt);
                             continue;
                         }
@@ -776,7 +777,7 @@ public:
                         while (mightHaveMore && !hasError) {
                             std::array<uint8_t, 2048> buffer;
                             const auto                bytes_read = session->_socket.read(buffer.data(), buffer.size());
-                            if (bytes_read <= 0 && errno != EAGAIN) {
+                            if (bytes_read == 0 || (bytes_read < 0 && errno != EAGAIN)) {
                                 if (bytes_read < 0) {
                                     HTTP_DBG("Client::read failed: {}", session->_socket.lastError());
                                 }
@@ -792,6 +793,7 @@ public:
                             mightHaveMore = bytes_read == static_cast<ssize_t>(buffer.size());
                         }
                         if (hasError) {
+                            session->reportErrorToAllPendingRequests("Connection lost: failed to read from peer");
                             sessionIt = sessions.erase(sessionIt);
                             continue;
                         }
-- 
2.43.0


From 12e46643001e2c84ce13b019d1517b951175b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 46/52] fix: RestClient: a request whose stream is reset by the
 server is answered with an error

---
 src/client/include/RestClientNative.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index ff5a411..435e83c 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -431,8 +431,12 @@ struct Http2ClientSession : public ClientSessionBase<Http2ClientSession, int32_t
         });
         nghttp2_session_callbacks_set_on_stream_close_callback(callbacks, [](nghttp2_session *, int32_t stream_id, uint32_t /*error_code*/, void *user_data) {
             auto client = static_cast<Http2ClientSession *>(user_data);
-            client->_requestsByStreamId.erase(stream_id);
             HTTP_DBG("Client::Stream closed: {}", stream_id);
+            if (auto it = client->_requestsByStreamId.find(stream_id); it != client->_requestsByStreamId.end()) {
+                // closed before the response was complete
+                it->second.reportError("Stream closed by peer");
+                client->_requestsByStreamId.erase(it);
+            }
             return 0;
         });
 
-- 
2.43.0


From 439a183471e35b88bb3c9afd95045d3c5b249bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 47/52] fix: RestClient: a topic can be subscribed again after
 it was unsubscribed

The subscription stayed registered, so that subscribing again did not start polling.
---
 src/client/include/RestClientNative.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 435e83c..5677d69 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -377,6 +377,7 @@ struct ClientSessionBase {
                     ++reqIt;
                 }
             }
+            _subscriptions.erase(subIt);
         }
     }
 };
-- 
2.43.0


From 76b8abe4b010fcd72522388b3e8a94dd371d7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 48/52] fix: RestServer: a malformed poll of a new topic does
 not keep it from being subscribed

---
 src/majordomo/include/majordomo/RestServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index e7a5f8a..ad6081c 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -573,7 +573,7 @@ struct SessionBase {
         std::uint64_t index = 0;
         if (auto [ptr, ec] = std::from_chars(request.longPollIndex.data(), request.longPollIndex.data() + request.longPollIndex.size(), index); ec != std::errc()) {
             respondWithError(streamId, std::format("Malformed LongPollingIdx '{}'", request.longPollIndex));
-            return {};
+            return result; // the topic is in the cache now, so it must be subscribed
         }
 
 #ifdef OPENCMW_PROFILE_HTTP
-- 
2.43.0


From 8b5a223432d0a42b455c4ce4d543fc7580172e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 49/52] fix: RestClient: unsubscribing does not drop get
 requests for the same topic

---
 src/client/include/RestClientNative.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 5677d69..b03faea 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -367,10 +367,10 @@ struct ClientSessionBase {
             return;
         };
         if (auto subIt = _subscriptions.find(topic.toZmqTopic()); subIt != _subscriptions.end()) {
-            // Cancel all requests for this topic
+            // Cancel all polls for this topic
             auto reqIt = _requestsByStreamId.begin();
             while (reqIt != _requestsByStreamId.end()) {
-                if (reqIt->second.request.topic == command.topic) {
+                if (reqIt->second.request.command == mdp::Command::Subscribe && reqIt->second.request.topic == command.topic) {
                     self().cancelStream(reqIt->first);
                     reqIt = _requestsByStreamId.erase(reqIt);
                 } else {
-- 
2.43.0


From 995ffa0cc327455f4acf119b25e56ffc9c429fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:28 +0000
Subject: [PATCH 50/52] fix: signal directory: lists that differ in length are
 refused instead of being read beyond their end

---
 src/services/include/services/dns_types.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 52f834e..69cf165 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -87,14 +87,16 @@ struct FlatEntryList {
     template<typename EntryType = Entry>
     [[nodiscard]] std::vector<EntryType> toEntries() const {
         const std::size_t size = protocol.size();
-        assert(hostname.size() == size
-                && port.size() == size
-                && service_name.size() == size
-                && service_type.size() == size
-                && signal_name.size() == size
-                && signal_unit.size() == size
-                && signal_rate.size() == size
-                && signal_type.size() == size);
+        if (hostname.size() != size
+                || port.size() != size
+                || service_name.size() != size
+                || service_type.size() != size
+                || signal_name.size() != size
+                || signal_unit.size() != size
+                || signal_rate.size() != size
+                || signal_type.size() != size) { // e.g. received from a client
+            throw std::invalid_argument("the lists of signal properties differ in length");
+        }
 
         std::vector<EntryType> res;
         res.reserve(size);
-- 
2.43.0


From f6fb940eb2c74c8c5b1e8dfd4133f17b651cbffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:28 +0000
Subject: [PATCH 51/52] fix: RestClient: an error response without a body is
 reported as an error

---
 src/client/include/RestClientNative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index b03faea..6f52679 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -276,7 +276,7 @@ struct ClientSessionBase {
                 auto       response = std::move(it->second.response);
                 const auto hasError = !it->second.responseStatus.starts_with("2") && !it->second.responseStatus.starts_with("3");
                 if (hasError) {
-                    response.error = std::move(it->second.payload);
+                    response.error = it->second.payload.empty() ? std::format("HTTP status {}", it->second.responseStatus) : std::move(it->second.payload);
                 } else {
                     response.data = IoBuffer(it->second.payload.data(), it->second.payload.size());
                 }
-- 
2.43.0


From ecdcf65a02ac1b054ae8980071f0327a77e66a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:20 +0000
Subject: [PATCH 52/52] fix: RestClient: the failure of a poll ends the
 subscription and is reported to all its subscribers

---
 src/client/include/RestClientNative.hpp | 31 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 6f52679..43c92da 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -229,13 +229,30 @@ struct ClientSessionBase {
 
         const TStreamId streamId = self().submitRequestImpl(headers, rr.body.get());
         if (streamId < 0) {
-            rr.reportError(std::format("Could not submit request: {}", nghttp2_strerror(streamId)));
+            reportError(rr, std::format("Could not submit request: {}", nghttp2_strerror(streamId)));
             return;
         }
 
         _requestsByStreamId.emplace(streamId, std::move(rr));
     }
 
+    // a subscription ends with the failure of its poll, for all its subscribers
+    void reportError(RequestResponse &rr, const std::string &error) {
+        auto subIt = rr.request.command == mdp::Command::Subscribe ? _subscriptions.find(rr.normalizedTopic) : _subscriptions.end();
+        if (subIt == _subscriptions.end()) {
+            rr.reportError(error);
+            return;
+        }
+        const auto callbacks = std::move(subIt->second.callbacks);
+        _subscriptions.erase(subIt);
+        for (const auto &callback : callbacks) {
+            if (callback) {
+                rr.request.callback = [&callback](const mdp::Message &response) { callback(mdp::Message(response)); };
+                rr.reportError(error);
+            }
+        }
+    }
+
     int processResponse(TStreamId streamId) {
         auto it = _requestsByStreamId.find(streamId);
         assert(it != _requestsByStreamId.end());
@@ -247,7 +264,7 @@ struct ClientSessionBase {
                     location = URI<>(it->second.location);
                 } catch (const std::exception &e) {
                     HTTP_DBG("Client::Header: Could not parse URI '{}': {}", it->second.location, e.what());
-                    it->second.reportError(std::format("Could not parse redirect URI '{}': {}", it->second.location, e.what()));
+                    reportError(it->second, std::format("Could not parse redirect URI '{}': {}", it->second.location, e.what()));
                     _requestsByStreamId.erase(it);
                     return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
                 }
@@ -255,14 +272,14 @@ struct ClientSessionBase {
                 auto        longPollIdxIt = queryParams.find("LongPollingIdx");
                 if (longPollIdxIt == queryParams.end() || !longPollIdxIt->second.has_value()) {
                     HTTP_DBG("Client::Header: Could not find LongPollingIdx in URI '{}'", it->second.location);
-                    it->second.reportError(std::format("Could not find LongPollingIdx in URI '{}'", it->second.location));
+                    reportError(it->second, std::format("Could not find LongPollingIdx in URI '{}'", it->second.location));
                     _requestsByStreamId.erase(it);
                     return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
                 }
                 std::uint64_t longPollingIdx;
                 if (auto ec = std::from_chars(longPollIdxIt->second->data(), longPollIdxIt->second->data() + longPollIdxIt->second->size(), longPollingIdx); ec.ec != std::errc{}) {
                     HTTP_DBG("Client::Header: Could not parse numerical LongPollingIdx from '{}'", longPollIdxIt->second);
-                    it->second.reportError(std::format("Could not parse numerical LongPollingIdx from '{}'", longPollIdxIt->second));
+                    reportError(it->second, std::format("Could not parse numerical LongPollingIdx from '{}'", longPollIdxIt->second));
                     _requestsByStreamId.erase(it);
                     return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
                 }
@@ -283,6 +300,8 @@ struct ClientSessionBase {
                 if (it->second.longPollingIdx) {
                     // Subscription
                     handleSubscriptionResponse(it->second.normalizedTopic, it->second.longPollingIdx.value(), std::move(response));
+                } else if (request.command == mdp::Command::Subscribe) {
+                    reportError(it->second, hasError ? std::move(response.error) : std::string("Response without LongPollingIdx"));
                 } else {
                     // GET/SET
                     if (request.callback) {
@@ -299,7 +318,7 @@ struct ClientSessionBase {
 
     void reportErrorToAllPendingRequests(std::string_view error) {
         for (auto &[streamId, request] : _requestsByStreamId) {
-            request.reportError(std::string{ error });
+            reportError(request, std::string{ error });
         }
         _requestsByStreamId.clear();
     }
@@ -435,7 +454,7 @@ struct Http2ClientSession : public ClientSessionBase<Http2ClientSession, int32_t
             HTTP_DBG("Client::Stream closed: {}", stream_id);
             if (auto it = client->_requestsByStreamId.find(stream_id); it != client->_requestsByStreamId.end()) {
                 // closed before the response was complete
-                it->second.reportError("Stream closed by peer");
+                client->reportError(it->second, "Stream closed by peer");
                 client->_requestsByStreamId.erase(it);
             }
             return 0;
-- 
2.43.0

