From a9063f66e0dee3b5f65290c8adb8ee55091d3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 01/30] fix: copying an lru_cache no longer shares list
 iterators with the original

---
 include/pluto/lru_cache.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..fbc36e6 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,31 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity  { other.m_capacity },
+            m_list      ( other.m_list )
+        {
+            // The iterators in the map must refer to this list, not the other list
+            for (auto it{ m_list.begin() }; it != m_list.end(); ++it)
+            {
+                m_map.emplace(*it, std::make_pair(other.m_map.find(*it)->second.first, it));
+            }
+        }
+
+        lru_cache(lru_cache&&) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            if (this != &other)
+            {
+                *this = lru_cache(other);
+            }
+
+            return *this;
+        }
+
+        lru_cache& operator=(lru_cache&&) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From 06104ac393b87653515f58af22553eabe0d849f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 02/30] fix: keep lru_cache list and map consistent when an
 exception is thrown

---
 include/pluto/lru_cache.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index fbc36e6..465d8fc 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -154,7 +154,17 @@ namespace pluto
                     }
 
                     m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+
+                    try
+                    {
+                        m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    }
+                    catch (...)
+                    {
+                        // Every item in the list must have a matching item in the map
+                        m_list.pop_front();
+                        throw;
+                    }
                 }
 
                 result = true;
@@ -172,14 +182,7 @@ namespace pluto
         void move_to_front(typename map_type::iterator itMap)
         {
             // Move item to front of most recently used list
-            auto itList{ itMap->second.second };
-            if (itList != m_list.begin())
-            {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
-            }
+            m_list.splice(m_list.begin(), m_list, itMap->second.second);
         }
 
         void evict_lru()
-- 
2.43.0


From 142616f5ef7d034ee36cd773730a48f56e3a7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 03/30] fix: lru_cache never exceeds its capacity if evicting
 throws

---
 include/pluto/lru_cache.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 465d8fc..0c4b491 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -86,20 +86,21 @@ namespace pluto
 
         void capacity(const std::size_t newCapacity)
         {
-            m_capacity = newCapacity;
-
-            if (m_capacity == 0)
+            if (newCapacity == 0)
             {
                 clear();
             }
             else
             {
                 // While cache is above capacity, evict the least recently used item
-                while (m_capacity < size())
+                while (newCapacity < size())
                 {
                     evict_lru();
                 }
             }
+
+            // Only set once the cache fits, in case comparing keys throws
+            m_capacity = newCapacity;
         }
 
         inline bool insert(const key_type& key, const value_type& value)
-- 
2.43.0


From 3a14d6ca9aa0ba7c9f1793c67d1acb3d10cdcc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 04/30] fix: starts_with and ends_with always pass left then
 right to the predicate

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..b5d0cec 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From 4d1f32b69c5d1007d676828a2ecaf8a742597f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 05/30] fix: rfind, rfind_if and rfind_if_not compile for
 pointer iterators

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index b5d0cec..853ab41 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -123,7 +123,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -159,7 +159,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -182,7 +182,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From 7c6eeff1b48a033e968a754b49366d8fc884fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 06/30] fix: case insensitive comparators keep their locale
 alive

---
 include/pluto/compare.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..aad490e 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,12 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +63,12 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +79,12 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +95,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +111,12 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +127,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale;
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From 8a6325e873ea3172eaf703c8e7211708f17b4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 07/30] fix: slice does not treat its iterators as an
 initializer list of elements

---
 include/pluto/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..e1e5058 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -208,7 +208,7 @@ namespace pluto
         auto stopIt{ startIt };
         std::advance(stopIt, (stop - start));
 
-        return { startIt, stopIt };
+        return Container(startIt, stopIt);
     }
 
     template<class Container>
-- 
2.43.0


From 0db80fad7abd16e0a482c3700e09b42b95a2e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 08/30] fix: copy does not treat its argument as an initializer
 list

---
 include/pluto/value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/value.hpp b/include/pluto/value.hpp
index 07dfa44..30841e5 100644
--- a/include/pluto/value.hpp
+++ b/include/pluto/value.hpp
@@ -23,7 +23,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD_CONSTEXPR Value copy(const Value& value)
     {
-        return { value };
+        return Value(value);
     }
 
     template<class Value>
-- 
2.43.0


From 8390e1b3993561d9aeb09d6c5a38e2c3923109c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 09/30] fix: str_to and wstr_to return a determined value for
 text with no value

---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From be8d5ee9a3047d783cda8c7eca9c47e8cb0fa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 10/30] fix: scope success and fail guards work inside
 destructors during unwinding

---
 include/pluto/scope.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..f66fba5 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -62,6 +62,11 @@ namespace pluto
     class on_scope_success
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exception{ std::uncaught_exception() };
+#endif
 
     public:
         inline on_scope_success() = default;
@@ -74,9 +79,9 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_exceptions)
 #else
-            if (!std::uncaught_exception())
+            if (std::uncaught_exception() == m_exception)
 #endif
             {
                 for (; !m_tasks.empty(); m_tasks.pop())
@@ -112,6 +117,11 @@ namespace pluto
     class on_scope_fail
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exception{ std::uncaught_exception() };
+#endif
 
     public:
         inline on_scope_fail() = default;
@@ -124,9 +134,9 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (m_exceptions < std::uncaught_exceptions())
 #else
-            if (std::uncaught_exception())
+            if (std::uncaught_exception() != m_exception)
 #endif
             {
                 for (; !m_tasks.empty(); m_tasks.pop())
-- 
2.43.0


From 57b7fd18efdd5e19ab015c642a6f8c25fe312c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 11/30] fix: thread_pool scheduler thread is only started with
 the mutex locked

---
 include/pluto/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..ee8c49a 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,7 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
+                // Keep the mutex locked, as other threads and the scheduler itself also use this thread object
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From 1945d29bfb6c1f2b0a9c1e2ca022135cf802e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 12/30] fix: wait_until_all_tasks_complete returns when the
 last worker exits

---
 include/pluto/thread_pool.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index ee8c49a..0cab58d 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -391,11 +391,6 @@ namespace pluto
             {
                 if (m_waitingTasks.empty())
                 {
-                    if (m_activeWorkersSize == 0)
-                    {
-                        m_tasksCompleteCondition.notify_all();
-                    }
-
                     m_workersCondition.wait(lock);
                 }
                 else
@@ -416,6 +411,12 @@ namespace pluto
 
                     lock.lock();
                     --m_activeWorkersSize;
+
+                    // This worker may exit next, so notify now
+                    if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                    {
+                        m_tasksCompleteCondition.notify_all();
+                    }
                 }
             }
 
-- 
2.43.0


From dd747042f3655c9aa25f2c63bf632f185aaf60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 13/30] fix: thread_pool completes tasks on stop even with
 surplus workers

---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 0cab58d..eb34869 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -386,8 +386,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 68f022c006b34f479226bb9e5fc9a0aebb5b5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 14/30] fix: thread_pool never destroys a finished task with
 the mutex locked

---
 include/pluto/thread_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index eb34869..77b1dd4 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -368,7 +368,7 @@ namespace pluto
                 const auto begin{ m_scheduledTasks.begin() };
                 if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
                 {
-                    m_waitingTasks.emplace(begin->second.priority, begin->second.task);
+                    m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
                     m_scheduledTasks.erase(begin);
 
                     // New task from schedule, wake one of the workers
@@ -397,7 +397,7 @@ namespace pluto
                 else
                 {
                     const auto begin{ m_waitingTasks.begin() };
-                    const auto task { std::move(begin->second) };
+                    auto task{ std::move(begin->second) };
                     m_waitingTasks.erase(begin);
 
                     if (m_waitingTasks.empty())
@@ -410,6 +410,9 @@ namespace pluto
 
                     task();
 
+                    // Anything captured by the task must be destroyed before the mutex is locked
+                    task = nullptr;
+
                     lock.lock();
                     --m_activeWorkersSize;
 
-- 
2.43.0


From ec5a46858bbc5b21c9fdec14c42009fb1af2710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 15/30] fix: writef logs an empty message when the scheme
 formats to nothing

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..2080af3 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -638,7 +638,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 5ea3046083ef7bca3f5e3e6141f32015569e0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 16/30] fix: logger destructor cannot lose the wake up of the
 logging thread

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 2080af3..ea1d0d5 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,12 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // Without the lock, the logging thread could miss this between checking and waiting
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From e296bccae0f8c6e9743baf5b70126ed080a2f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 17/30] fix: changing logger buffer flush size cannot lose the
 wake up of the logging thread

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index ea1d0d5..b8dd9e3 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -559,7 +559,12 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // Without the lock, the logging thread could miss this between checking and waiting
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From 447be6936edecc274702a5852cb2babfa18e161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 18/30] fix: ending a logger stream ends it even if its level
 is not logged

---
 include/pluto/logger.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index b8dd9e3..c9d0e14 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -329,9 +329,13 @@ namespace pluto
 
             void end()
             {
-                if (m_logger && m_logger->should_log(m_logLevel))
+                if (m_logger)
                 {
-                    m_logger->add_log_to_buffer(m_logFile, m_logLevel, m_sourceInfo, m_stream.str());
+                    if (m_logger->should_log(m_logLevel))
+                    {
+                        m_logger->add_log_to_buffer(m_logFile, m_logLevel, m_sourceInfo, m_stream.str());
+                    }
+
                     m_logger = nullptr;
                 }
             }
-- 
2.43.0


From 6c3797ad656530b4fcca5379e8cc82dbc0e55532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 19/30] fix: container.hpp compiles with C++14

---
 include/pluto/container.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index e1e5058..bb20ada 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -195,7 +195,7 @@ namespace pluto
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(container.size()) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -222,8 +222,20 @@ namespace pluto
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
     {
+#if PLUTO_UTILS_HAS_CXX_17
         return std::size(container);
+#else
+        return container.size();
+#endif
+    }
+
+#if !PLUTO_UTILS_HAS_CXX_17
+    template<class Elem, std::size_t Size>
+    PLUTO_UTILS_NODISCARD_CONSTEXPR std::size_t len(const Elem (&)[Size])
+    {
+        return Size;
     }
+#endif
 
     template<class Container, class Predicate = pluto::is_true>
     PLUTO_UTILS_NODISCARD_CONSTEXPR bool any(
-- 
2.43.0


From 9805ffd74372071b6afcae27704cf7bf04226c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 20/30] fix: platform.hpp includes what it uses

---
 include/pluto/platform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pluto/platform.hpp b/include/pluto/platform.hpp
index 202dda3..ec5d587 100644
--- a/include/pluto/platform.hpp
+++ b/include/pluto/platform.hpp
@@ -17,6 +17,10 @@
 #include <unistd.h>
 #endif
 
+#include <ctime>
+#include <cstddef>
+#include <cstdint>
+
 #include "version.hpp"
 
 namespace pluto
-- 
2.43.0


From 73979666ae8ab151fc8fd824ef70652d7ef1e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 21/30] fix: range does not treat its bounds as initializer
 lists

---
 include/pluto/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/range.hpp b/include/pluto/range.hpp
index f81544d..ad2b91e 100644
--- a/include/pluto/range.hpp
+++ b/include/pluto/range.hpp
@@ -19,8 +19,8 @@ namespace pluto
         T end;
 
         PLUTO_UTILS_CONSTEXPR range(const T& begin, const T& end) :
-            begin   { begin },
-            end     { end } {}
+            begin   ( begin ),
+            end     ( end ) {}
 
         PLUTO_UTILS_NODISCARD_CONSTEXPR auto size() const
         {
-- 
2.43.0


From cee05cbcb3a80e208f72d35555b93ee410ef29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 22/30] fix: scope guards run every task once even if a task
 adds another

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index f66fba5..5b7cb2a 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Remove the task before running it, in case it adds another task
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -84,9 +87,11 @@ namespace pluto
             if (std::uncaught_exception() == m_exception)
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove the task before running it, in case it adds another task
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -139,9 +144,11 @@ namespace pluto
             if (std::uncaught_exception() != m_exception)
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove the task before running it, in case it adds another task
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From ec61eea0e788d51bebf3e3f6bf814b6978975014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 23/30] fix: scheduled tasks are queued in time order when one
 is scheduled as another becomes due

---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 77b1dd4..436912a 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -365,9 +365,11 @@ namespace pluto
 
             while (!m_scheduledTasks.empty() && !m_isStopping)
             {
-                const auto begin{ m_scheduledTasks.begin() };
-                if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
+                const auto time{ m_scheduledTasks.begin()->first };
+                if (m_schedulerCondition.wait_until(lock, time) == std::cv_status::timeout)
                 {
+                    // A task with an earlier time may have been scheduled during the wait
+                    const auto begin{ m_scheduledTasks.begin() };
                     m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
                     m_scheduledTasks.erase(begin);
 
-- 
2.43.0


From 8d0954c7acb836eb61b26a69bf5792f69f544447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 24/30] fix: logger creates missing directories again when they
 have been removed

---
 include/pluto/logger.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index c9d0e14..463cc65 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -354,7 +354,6 @@ namespace pluto
         {
             log_buffer              buffer      {};
             pluto::filesystem::path filePath    {};
-            bool                    dirsCreated { false };
         };
 
         std::mutex                      m_loggingMutex      {};
@@ -406,9 +405,8 @@ namespace pluto
                 {
                     auto& fileName      { logFilePair.first };
                     auto& filePath      { logFilePair.second.filePath };
-                    auto& dirsCreated   { logFilePair.second.dirsCreated };
 
-                    write_buffer_to_file(buffer.begin(), buffer.end(), fileName, filePath, dirsCreated);
+                    write_buffer_to_file(buffer.begin(), buffer.end(), fileName, filePath);
                 }
             }
         }
@@ -825,8 +823,7 @@ namespace pluto
             const log_buffer::iterator  begin,
             const log_buffer::iterator  end,
             const std::string&          fileName,
-            pluto::filesystem::path&    filePath,
-            bool&                       dirsCreated) const
+            pluto::filesystem::path&    filePath) const
         {
             auto itWritten{ end };
 
@@ -838,11 +835,10 @@ namespace pluto
                     filePath = pluto::filesystem::absolute(fileName);
                 }
 
-                // Create path to file if needed
-                if (create_dirs() && !dirsCreated)
+                // Create path to file if needed (it may have been removed since the last time)
+                if (create_dirs())
                 {
                     pluto::filesystem::create_directories(filePath.parent_path());
-                    dirsCreated = true;
                 }
 
                 const auto writeHeader{ write_header() };
@@ -906,7 +902,6 @@ namespace pluto
                         {
                             auto& fileName      { logFilePair.first };
                             auto& filePath      { logFilePair.second.filePath };
-                            auto& dirsCreated   { logFilePair.second.dirsCreated };
 
                             const auto begin{ buffer.begin() };
                             const auto end  { buffer.end() };
@@ -926,7 +921,7 @@ namespace pluto
                             // Since other threads can add logs, don't wait when done.
                             shouldWait = false;
 
-                            const auto itWritten{ write_buffer_to_file(begin, end, fileName, filePath, dirsCreated) };
+                            const auto itWritten{ write_buffer_to_file(begin, end, fileName, filePath) };
 
                             lock.lock();
 
-- 
2.43.0


From 80a818a9d1079a9b98a852b2bf2c78db420f72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 25/30] fix: replacing a log or header writer no longer
 destroys the old one with the mutex locked

State captured by the old writer may use the logger when it is destroyed (for example set a writer), which deadlocked.
---
 include/pluto/logger.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 463cc65..4af63d4 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -591,15 +591,19 @@ namespace pluto
 
         inline logger& log_writer(const std::function<void(std::ostream&, const log_entry&)>& logWriter)
         {
+            // The old writer may use this logger when it's destroyed, so destroy it after unlocking the mutex
+            auto newLogWriter{ logWriter };
             const std::unique_lock<std::mutex> lock{ m_configMutex };
-            m_logWriter = logWriter;
+            m_logWriter.swap(newLogWriter);
             return *this;
         }
 
         inline logger& header_writer(const std::function<void(std::ostream&)>& headerWriter)
         {
+            // The old writer may use this logger when it's destroyed, so destroy it after unlocking the mutex
+            auto newHeaderWriter{ headerWriter };
             const std::unique_lock<std::mutex> lock{ m_configMutex };
-            m_headerWriter = headerWriter;
+            m_headerWriter.swap(newHeaderWriter);
             return *this;
         }
 
-- 
2.43.0


From 9fdce6aad56389367f56e4650b04e98b6bc2aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 26/30] fix: default log lines no longer depend on the stream's
 number base or the locale's digit grouping

---
 include/pluto/logger.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 4af63d4..83fdeb1 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -434,15 +434,15 @@ namespace pluto
 
             stream << std::right << std::setfill('0')
                 << std::put_time(&localTime, "%Y-%m-%d %H:%M:%S.")
-                << std::setw(6) << microseconds << '|'
+                << std::setw(6) << std::to_string(microseconds) << '|'
                 << std::setfill(' ')
-                << std::setw(7) << log.thread_id << '|'
+                << std::setw(7) << std::to_string(log.thread_id) << '|'
                 << std::left
                 << std::setw(8) << pluto::log_level_to_title(log.level) << '|'
     #if !PLUTO_LOGGER_HIDE_SOURCE_INFO
                 << std::setw(20) << std::string(pluto::file_name(log.source.file), 0, 20) << '|'
                 << std::right
-                << std::setw(5) << log.source.line << '|'
+                << std::setw(5) << std::to_string(log.source.line) << '|'
                 << std::left
                 << std::setw(20) << std::string(log.source.function, 0, 20) << '|'
     #endif
-- 
2.43.0


From 6ddf1c9a208b3308d33516ca4f11debe084967bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 27/30] fix: tasks to run after a delay too long to be added to
 the current time no longer run immediately

---
 include/pluto/thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 436912a..8eaf3a9 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -327,7 +327,13 @@ namespace pluto
             const std::function<void()>&    task,
             const signed char               priority = PLUTO_THREAD_POOL_PRIORITY_NORMAL)
         {
-            run_at((clock_type::now() + duration), task, priority);
+            const auto now{ clock_type::now() };
+
+            // A duration can be too long for the clock to represent its end
+            const auto isTooLong{ now.time_since_epoch() > clock_type::duration::zero() &&
+                duration > ((clock_type::time_point::max)() - now) };
+
+            run_at((isTooLong ? (clock_type::time_point::max)() : (now + duration)), task, priority);
         }
 
         inline void run_after(
-- 
2.43.0


From 08d553b85f617ab3afaa311d6e86e2696c72b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 28/30] fix: tasks are copied before the mutex is locked, so
 copying them can neither deadlock nor leave clean-up to run under the lock

---
 include/pluto/thread_pool.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 8eaf3a9..b18bfae 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -252,9 +252,12 @@ namespace pluto
             const std::function<void()>&    task,
             const signed char               priority = PLUTO_THREAD_POOL_PRIORITY_NORMAL)
         {
+            // Anything captured by the task must be copied before the mutex is locked
+            std::function<void()> waitingTask{ task };
+
             {
                 const std::unique_lock<std::mutex> lock{ m_mutex };
-                m_waitingTasks.emplace(priority, task);
+                m_waitingTasks.emplace(priority, std::move(waitingTask));
             }
 
             // Wake a worker thread
@@ -297,9 +300,12 @@ namespace pluto
             const std::function<void()>&    task,
             const signed char               priority = PLUTO_THREAD_POOL_PRIORITY_NORMAL)
         {
+            // Anything captured by the task must be copied before the mutex is locked
+            task_info scheduledTask{ priority, task };
+
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            m_scheduledTasks.emplace(time, task_info{ priority, task });
+            m_scheduledTasks.emplace(time, std::move(scheduledTask));
 
             if (!m_scheduler.joinable())
             {
-- 
2.43.0


From 6e446ddb0f7f925615eb431ed94ae9e1fad7835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 29/30] fix: a task that run_at reported as failed, because no
 scheduler could be started, no longer runs

---
 include/pluto/thread_pool.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index b18bfae..60e11e5 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -305,14 +305,17 @@ namespace pluto
 
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            m_scheduledTasks.emplace(time, std::move(scheduledTask));
-
-            if (!m_scheduler.joinable())
+            const auto isScheduling{ m_scheduler.joinable() };
+            if (!isScheduling)
             {
                 // Keep the mutex locked, as other threads and the scheduler itself also use this thread object
+                // If the scheduler can't be started, then the task isn't scheduled
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
-            else if (time == m_scheduledTasks.begin()->first)
+
+            m_scheduledTasks.emplace(time, std::move(scheduledTask));
+
+            if (isScheduling && time == m_scheduledTasks.begin()->first)
             {
                 // Wake the scheduler so it knows it has less time to sleep
                 lock.unlock();
-- 
2.43.0


From a57dee4720b6c67159226fff24fe5e24a54f0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 30/30] fix: the constructor of thread_pool no longer
 terminates the program when a worker cannot be started

---
 include/pluto/thread_pool.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 60e11e5..1fb3712 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -110,10 +110,7 @@ namespace pluto
 
     public:
         explicit thread_pool(const std::size_t targetWorkersSize = std::thread::hardware_concurrency()) :
-            m_onStop            { action::join_all },
-            m_isStopping        { false },
-            m_targetWorkersSize { targetWorkersSize },
-            m_activeWorkersSize { 0 }
+            thread_pool{ action::join_all, targetWorkersSize } // If a worker can't be started, the destructor joins the others
         {
             const std::unique_lock<std::mutex> lock{ m_mutex };
 
@@ -374,6 +371,14 @@ namespace pluto
         }
 
     private:
+        thread_pool(
+            const action        onStop,
+            const std::size_t   targetWorkersSize) :
+            m_onStop            { onStop },
+            m_isStopping        { false },
+            m_targetWorkersSize { targetWorkersSize },
+            m_activeWorkersSize { 0 } {}
+
         void start_scheduling()
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
-- 
2.43.0

