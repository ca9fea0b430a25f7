From cd9a838b2dfb7b6dc8d34d0d41c1c8f6b2fe4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 01/11] fix: copying an lru_cache keeps list iterators of the
 original

The implicitly generated copy constructor and copy assignment copied the
map's list iterators, so operations on the copy modified the original.
---
 include/pluto/lru_cache.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..c0d27a9 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,30 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        // The map holds iterators into the list, so a copy has to point them at its own list
+        lru_cache(const lru_cache& other) :
+            m_capacity{ other.m_capacity }, m_list(other.m_list), m_map(other.m_map)
+        {
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.find(*itList)->second.second = itList;
+            }
+        }
+
+        lru_cache(lru_cache&& other) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            if (this != &other)
+            {
+                *this = lru_cache(other);
+            }
+
+            return *this;
+        }
+
+        lru_cache& operator=(lru_cache&& other) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From f02f960208d46483e3b38de973a8850de50cb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 02/11] fix: random-access starts_with/ends_with pass the
 predicate's arguments swapped

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..b5d0cec 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From 20017d6229781e6d8ab9b7efcc488e50307a1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 03/11] fix: thread_pool starts the scheduler thread without
 holding its lock

---
 include/pluto/thread_pool.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..a22098f 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,6 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From 69772a903e40eeb7622c38ff18bfce1087ebb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 04/11] fix: thread_pool worker leaving after the last task
 does not notify completion

---
 include/pluto/thread_pool.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index a22098f..e936896 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -415,6 +415,11 @@ namespace pluto
 
                     lock.lock();
                     --m_activeWorkersSize;
+
+                    if (m_activeWorkersSize == 0 && m_waitingTasks.empty())
+                    {
+                        m_tasksCompleteCondition.notify_all();
+                    }
                 }
             }
 
-- 
2.43.0


From 4c580f0228b12f9d6a5ae1004e2af4af746d0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 05/11] fix: thread_pool drops tasks when stopping with surplus
 workers

---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e936896..64e2a02 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -385,8 +385,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 8332199549ac0ca6a0c1ff374159af2d3e08383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 06/11] fix: thread_pool scheduler queues a later task before
 an earlier one

---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 64e2a02..ae942c9 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -367,8 +367,10 @@ namespace pluto
                 const auto begin{ m_scheduledTasks.begin() };
                 if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
                 {
-                    m_waitingTasks.emplace(begin->second.priority, begin->second.task);
-                    m_scheduledTasks.erase(begin);
+                    // An earlier task may have been scheduled in the meantime
+                    const auto next{ m_scheduledTasks.begin() };
+                    m_waitingTasks.emplace(next->second.priority, next->second.task);
+                    m_scheduledTasks.erase(next);
 
                     // New task from schedule, wake one of the workers
                     m_workersCondition.notify_one();
-- 
2.43.0


From 1ae3a5987647c892aad47ec76e4c6f122a289d6c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 07/11] fix: logger's stop and flush size wake-ups can be
 missed by the logging thread

---
 include/pluto/logger.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..5b968f6 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,11 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
@@ -554,7 +558,11 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From 4ec94756c03ed990445662c1d8230103c83ee42f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 08/11] fix: logger::writef logs the scheme when the formatted
 message is empty

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 5b968f6..fd00b5d 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -646,7 +646,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 727a8ef4de5bbcad354466982af4149ae280d19e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 09/11] fix: an ended log stream can still be logged when it is
 destroyed

---
 include/pluto/logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index fd00b5d..12327e7 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -332,8 +332,9 @@ namespace pluto
                 if (m_logger && m_logger->should_log(m_logLevel))
                 {
                     m_logger->add_log_to_buffer(m_logFile, m_logLevel, m_sourceInfo, m_stream.str());
-                    m_logger = nullptr;
                 }
+
+                m_logger = nullptr;
             }
 
             template<class Value>
-- 
2.43.0


From c49fde6868e34d8e1934dd7e77890c84c02151e9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 10/11] fix: logger rotates small files and omits headers when
 the file position is unknown

---
 include/pluto/logger.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 12327e7..b8ca783 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -775,6 +775,19 @@ namespace pluto
             }
         }
 
+        static std::size_t get_file_size(std::ofstream& fileStream)
+        {
+            const std::streamoff position{ fileStream.tellp() };
+
+            if (position < 0)
+            {
+                throw pluto::filesystem::filesystem_error{
+                    "pluto::logger failed to get file size", std::make_error_code(std::errc::io_error) };
+            }
+
+            return static_cast<std::size_t>(position);
+        }
+
         void rotate_file(const pluto::filesystem::path& filePath) const
         {
             const auto stem             { filePath.stem().string() };
@@ -849,7 +862,7 @@ namespace pluto
 
                 while (itWritten != begin)
                 {
-                    fileSize = static_cast<std::size_t>(fileStream.tellp());
+                    fileSize = get_file_size(fileStream);
 
                     // Rotate file if needed
                     if (fileRotationSize != 0 && fileRotationSize <= fileSize)
@@ -857,7 +870,7 @@ namespace pluto
                         fileStream.close();
                         rotate_file(filePath);
                         open_file_stream(fileStream, filePath);
-                        fileSize = static_cast<std::size_t>(fileStream.tellp());
+                        fileSize = get_file_size(fileStream);
                     }
 
                     // Write header if needed
-- 
2.43.0


From dd8299ea7653c0444d6a5caf74570ff6fdb33cc6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 11/11] fix: logger::writef overflows int on the longest
 formatted message

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index b8ca783..34a7014 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -649,7 +649,7 @@ namespace pluto
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
                     if (0 <= messageLength)
                     {
-                        message.resize(messageLength + 1);
+                        message.resize(static_cast<std::size_t>(messageLength) + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
                         {
                             message.resize(messageLength);
-- 
2.43.0

