From ffe6fcb401a40404620e28c7696825fcaa79dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 01/40] fix: parallel max-flow reads the flow of other
 components' source edges (data race)

---
 lib/tethys/tethys_graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/tethys/tethys_graph.cpp b/lib/tethys/tethys_graph.cpp
index 1fee707..1ac7d28 100644
--- a/lib/tethys/tethys_graph.cpp
+++ b/lib/tethys/tethys_graph.cpp
@@ -171,6 +171,13 @@ std::vector<EdgePtr> TethysGraph::find_source_sink_path(const size_t component,
 
         for (EdgePtr e_ptr : out_edges) {
             const Edge& e = edges[e_ptr];
+            // The source is shared by all the components: do not read the flow
+            // of the edges of the other components, as it might be concurrently
+            // updated (cf. parallel_compute_residual_maxflow())
+            if (v_ptr == kSourcePtr
+                && get_vertex(e.end).component != component) {
+                continue;
+            }
             if (e.flow > 0) {
                 const VertexPtr dest_ptr = e.end;
                 const Vertex&   dest     = get_vertex(dest_ptr);
-- 
2.43.0


From ff1f8025209b709a1fae67ed986ec95482d6f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 02/40] fix: a failed read resets RocksDBCounter counters

---
 lib/utils/rocksdb_wrapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..c93adb3 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -111,8 +111,14 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        // the read failed: do not reset an existing counter
+        logger::logger()->error("Unable to read a counter in the database\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -143,8 +149,14 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        // the read failed: do not reset an existing counter
+        logger::logger()->error("Unable to read a counter in the database\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 911c9fe3559659dd9763aa9bb01d3aa9586a9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 03/40] fix: awonvm_vector::async_push_back accepts appends to
 a committed vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..800e691 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -246,6 +246,11 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
         throw std::runtime_error("No IO Scheduler set");
     }
 
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_use_direct_io && !m_io_warn_flag) {
         std::cerr << "awonvm_vector uses buffered IOs. Calls for async IOs "
                      "will be synchronous.\n";
-- 
2.43.0


From 19881f391fe817aee36fe843be04940f89f24d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 04/40] fix: awonvm_vector asynchronous reads accept the index
 just past the end

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 800e691..440aeb5 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -338,7 +338,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -380,7 +380,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -443,7 +443,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From 170ccfb19793b850bd68108df95e5ade4fee4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 05/40] fix: awonvm_vector::push_back overwrites asynchronously
 written elements

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 440aeb5..ef67a18 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    // write at the position of the element, not at the file offset, which does
+    // not account for asynchronous writes
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 815544907bd74e583f6240070cc3196369848977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 06/40] fix: moving an awonvm_vector loses its size and closes
 descriptor 0

---
 .../sse/schemes/abstractio/awonvm_vector.hpp       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index ef67a18..34ece0f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,15 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // the moved-from vector owns nothing: its destructor must not commit
+    // nor close anything
+    vec.m_fd           = -1;
+    vec.m_size         = 0;
+    vec.m_is_committed = true;
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +194,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd != -1) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From 76e09ef295b4643c5a51b088759ad9a4f9b781f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 07/40] fix: awonvm_vector::async_gets leaks buffers and frees
 buffers of reads in flight

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 34ece0f..d2632e5 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -468,11 +468,18 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
                 + std::to_string(ret) + "(" + strerror(ret) + ")");
         }
 
+        // the callback owns the buffer until a successful read: it is released
+        // if the read fails, if the request is not submitted, or if it is
+        // rejected, but never while the read is in flight
+        using buffer_owner_type = std::unique_ptr<void, void (*)(void*)>;
+        auto owner = std::make_shared<buffer_owner_type>(buffer, &free);
+
         auto get_callback = req.callback;
-        auto inner_cb     = [get_callback](void* buf, int64_t res) {
+        auto inner_cb     = [get_callback, owner](void* buf, int64_t res) {
             std::unique_ptr<T> result(nullptr);
 
             if (res == sizeof(T)) {
+                owner->release();
                 result.reset(reinterpret_cast<T*>(buf));
             }
 
@@ -486,10 +493,6 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
-        }
-
         throw std::runtime_error(
             "Error when submitting the read async IO: errno "
             + std::to_string(ret) + "(" + strerror(ret) + ")");
-- 
2.43.0


From 1196818283d11ce0a0c2bd7d6a3de39668950a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 08/40] fix: awonvm_vector::async_push_back leaks the buffer of
 a rejected write

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index d2632e5..1dffd38 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -292,6 +292,8 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        free(buf);
+
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
-- 
2.43.0


From 2526bf9f5b5b529842bc9d82f6fa741999f4ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 09/40] fix: awonvm_vector::set_use_direct_access dereferences
 a null scheduler

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 1dffd38..9360a2a 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -327,7 +327,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -337,8 +339,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From f22da9eea38ce6a6704e3991cbb4e3281376f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 10/40] fix: data race on the lazily initialized logger

---
 lib/utils/logger.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..0d19cf8 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,19 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+// the logger is lazily initialized, possibly from several threads
+static std::mutex shared_logger_mutex_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +50,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From 7532d61cfa49afa9eafa5e3c54951023d254bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 11/40] fix: the thread pool scheduler can be destroyed while a
 query holds its mutex

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..1ef7d6d 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,10 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // always take the lock: the scheduler must not be destroyed while the last
+    // query holds it
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock, [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From 9a10c0367953229def364c5b7f524936ecd7b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 12/40] fix: data race on the creation of the shared IO thread
 pool

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 1ef7d6d..3217e85 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,14 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // thread-safe initialization; the pool is never destroyed
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From a8104c6600eff8a7f117e423df59cb781805c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 13/40] fix: lost wakeup when the kernel AIO queue is full

---
 lib/abstractio/linux_aio_scheduler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..4866849 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -6,6 +6,7 @@
 #include "utils/utils.hpp"
 
 #include <cassert>
+#include <chrono>
 #include <climits>
 #include <libaio.h>
 
@@ -147,10 +148,13 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
+            // do not wait forever: the notification can have been sent between
+            // the submission attempt and the acquisition of the lock
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            m_cv_submission.wait_for(
+                lock, std::chrono::milliseconds(10), [this] {
+                    return !m_waiting_submissions;
+                });
         } else {
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
-- 
2.43.0


From a7d9cb0db9bc8949f69ed6eecd245cdb0aabc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 14/40] fix: an interrupted io_getevents corrupts the count of
 completed queries

---
 lib/abstractio/linux_aio_scheduler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 4866849..fbf1ee9 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -70,6 +70,8 @@ void LinuxAIOScheduler::notify_loop()
         if (num_events < 0) {
             std::cerr << "Error in io_getevents: " << std::to_string(errno)
                       << "(" << strerror(errno) << ")\n";
+            // nothing completed, and this must not be counted
+            num_events = 0;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From 48b05799a4b823f47a7ab7dc7085349fa77a18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 15/40] fix: requests the kernel refuses are leaked by the AIO
 scheduler

---
 lib/abstractio/linux_aio_scheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index fbf1ee9..66c6fc9 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -161,6 +161,11 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
+
+            // the kernel will never complete these requests
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
             return -1;
         }
     }
-- 
2.43.0


From f7d68bc55b188f5ee0a1c02f3bc8487902393d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 16/40] fix: a list without element in a bucket was encoded as
 an end-of-bucket marker, hiding the lists after it

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..9cf5570 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // nothing to put in this bucket: a null length would be decoded as
+            // the end of the bucket
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From dd6dbf79bbce4a5c5dd7b9dd8b8715a4a4d94bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 17/40] fix: concurrent or failed bucket reads crashed
 TethysStore::async_get_list

---
 .../sse/schemes/tethys/tethys_store.hpp       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..0ead307 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,15 +334,25 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the two buckets can be received concurrently: take one of the slots,
+        // and declare it completed only once it is filled
+        if (state->slot_counter.fetch_add(1) == 0) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
+
+        if (completed == 2) {
+            if (!state->bucket_0 || !state->bucket_1) {
+                // one of the reads failed
+                delete state;
+                callback(std::vector<T>());
+                return;
+            }
 
             std::vector<T> stash_res;
 
@@ -388,6 +398,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder                  decoder;
 
@@ -421,6 +432,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder*                 decoder;
 
-- 
2.43.0


From ea35ceafb286ea77ac398e9bfc27cf5c8c39ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 18/40] fix: Pluto search results contain the padding of the
 full blocks

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..00f2c8c 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,13 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // only the first kPlutoListLength elements of the value are used
+            // by the builder
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From b8d50da36ad290f087f9304708a86fdd1154dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 19/40] fix: PlutoBuilder::build never ends for an empty index

---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..af0e696 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,8 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks
+        = (n_elts == 0) ? 0 : 1 + ((n_elts - 1) / Params::kPlutoListLength);
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From 30cc53cbf9aeb2ed636f9418d0b9e11dae99bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 20/40] fix: GenericRocksDBStore::get reports failed reads as
 absent keys

---
 lib/include/sse/schemes/pluto/rocksdb_store.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/rocksdb_store.hpp b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
index df9a861..10b1ccd 100644
--- a/lib/include/sse/schemes/pluto/rocksdb_store.hpp
+++ b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
@@ -76,8 +76,10 @@ std::array<index_type, N> GenericRocksDBStore::get(
 
     if (s.ok()) {
         ::memcpy(content.data(), value.data(), N * sizeof(index_type));
-    } else {
+    } else if (s.IsNotFound()) {
         throw std::out_of_range("Key not found");
+    } else {
+        throw std::runtime_error("Unable to read the key: " + s.ToString());
     }
 
     return content;
-- 
2.43.0


From 669140e22faabfc959deb29efb5b6cb2ae702ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 21/40] fix: the Sophos server cannot be created on hosts with
 0 or at least 128 hardware threads

---
 lib/sophos/sophos_server.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..73a14fd 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -31,10 +31,24 @@ namespace sse {
 namespace sophos {
 
 
+// Number of threads used by the parallel RSA computations. The orders of the TDP
+// pool are 8 bits integers, and at least two threads are used.
+static uint8_t rsa_threads_count()
+{
+    return static_cast<uint8_t>(std::min<unsigned>(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 2), 255));
+}
+
+static uint8_t tdp_pool_size()
+{
+    return static_cast<uint8_t>(std::min<unsigned>(
+        std::max<unsigned>(2 * std::thread::hardware_concurrency(), 2), 255));
+}
+
 SophosServer::SophosServer(const std::string& db_path,
                            const std::string& tdp_pk)
     : edb_(db_path),
-      public_tdp_(tdp_pk, 2 * std::thread::hardware_concurrency())
+      public_tdp_(tdp_pk, tdp_pool_size())
 {
 }
 
@@ -206,8 +220,7 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     std::vector<std::thread> rsa_threads;
 
     // use at least two threads to make the RSA computations
-    unsigned n_rsa_threads
-        = std::max<unsigned>(std::thread::hardware_concurrency(), 2);
+    unsigned n_rsa_threads = rsa_threads_count();
 
     for (unsigned t = 0; t < n_rsa_threads; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, n_rsa_threads);
-- 
2.43.0


From 75569bdea5b0ff8c5f023f0eba53e0957d8e720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 22/40] fix: DianaClient::get_match_count is off by one, so
 that Janus punctures two keys with the same index

---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..20e4783 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the index of the last inserted entry
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 3979780c53be5116c248d6bc04ce0cc41f7a1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 23/40] fix: truncated Janus cache entries were read past the
 end of the data

---
 lib/janus/janus_server.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 5daad4b..9f23899 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -31,8 +31,8 @@ struct serialization<janus::JanusServer::cached_result_type>
                      const std::string::iterator&            end,
                      janus::JanusServer::cached_result_type& out)
     {
-        if (end < begin + sizeof(janus::index_type)
-                      + sizeof(crypto::punct::kTagSize)) {
+        if (static_cast<size_t>(std::distance(begin, end))
+            < sizeof(janus::index_type) + crypto::punct::kTagSize) {
             if (end != begin) {
                 logger::logger()->error("Error when deserializing");
             }
@@ -43,7 +43,7 @@ struct serialization<janus::JanusServer::cached_result_type>
                                 + utility::hex_string(std::string(
                                     begin,
                                     begin + sizeof(janus::index_type)
-                                        + sizeof(crypto::punct::kTagSize))));
+                                        + crypto::punct::kTagSize)));
 
         janus::index_type       ind;
         crypto::punct::tag_type tag;
-- 
2.43.0


From 413b9331a896624b8fbeabc5bcbe3b08d45ac8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 24/40] fix: truncated stash files were read as if complete,
 with uninitialised entries

EncodeSeparateDecoder and DecryptDecoder did not check the stream after
reading: a truncated stash yielded an entry made of whatever was in memory,
and an arbitrary amount of memory was reserved from an unchecked size. The
overload of deserialize without a deserializer did not compile.
---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp  |  5 +++--
 .../sse/schemes/tethys/encoders/encode_encrypt.hpp    | 11 ++++++++++-
 .../sse/schemes/tethys/encoders/encode_separate.hpp   | 11 ++++++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 3941647..c176006 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -87,8 +87,9 @@ template<class Key, class T, class InnerDeserializer>
 void deserialize(std::istream&                   input_stream,
                  std::function<void(Key k, T v)> callback)
 {
-    deserialize<Key, T, InnerDeserializer>(
-        input_stream, callback, InnerDeserializer());
+    InnerDeserializer deser;
+
+    deserialize<Key, T, InnerDeserializer>(input_stream, callback, deser);
 }
 
 template<class Key, class T, class InnerDeserializer>
diff --git a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
index ef4e003..a1da08a 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
@@ -12,6 +12,7 @@
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -207,11 +208,19 @@ public:
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
-        v.reserve(v_size);
+        if (!in) {
+            throw std::runtime_error("Truncated stash entry");
+        }
 
+        // do not allocate memory from the size of the list: it cannot be
+        // trusted until all its elements have been read
         for (size_t i = 0; i < v_size; i++) {
             value_type elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+
+            if (!in) {
+                throw std::runtime_error("Truncated stash entry");
+            }
             v.push_back(elt);
         }
 
diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 9cf5570..1649d98 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -8,6 +8,7 @@
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -346,11 +347,19 @@ struct EncodeSeparateDecoder
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
-        v.reserve(v_size);
+        if (!in) {
+            throw std::runtime_error("Truncated stash entry");
+        }
 
+        // do not allocate memory from the size of the list: it cannot be
+        // trusted until all its elements have been read
         for (size_t i = 0; i < v_size; i++) {
             T elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+
+            if (!in) {
+                throw std::runtime_error("Truncated stash entry");
+            }
             v.push_back(elt);
         }
 
-- 
2.43.0


From 1a86166c07fa57a91e6f56c7991462891c39b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:07 +0000
Subject: [PATCH 25/40] fix: hex_string dropped the high bytes of array
 elements wider than 8 bits

---
 lib/include/sse/schemes/utils/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..e8f2d17 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -28,6 +28,7 @@
 #include <iomanip>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 namespace sse {
 namespace utility {
@@ -76,9 +77,12 @@ template<typename T, size_t N>
 std::string hex_string(const std::array<T, N>& in)
 {
     std::ostringstream out;
-    for (unsigned char c : in) {
+    for (const T& c : in) {
+        // go through the unsigned type so that negative values are not sign
+        // extended
         out << std::hex << std::setw(2 * sizeof(T)) << std::setfill('0')
-            << static_cast<uint64_t>(c);
+            << static_cast<uint64_t>(
+                   static_cast<typename std::make_unsigned<T>::type>(c));
     }
     return out.str();
 }
-- 
2.43.0


From 8316a962e192c3a035b8f563bc5da4fab646517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 26/40] fix: concat_iterator dereferenced the end of an empty
 first container, and compared iterators of different containers

---
 .../sse/schemes/utils/concat_iterator.hpp     | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..0f40657 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -20,10 +20,7 @@ public:
     concat_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_container_1_end();
         return *this;
     }
 
@@ -38,7 +35,9 @@ public:
     }
     bool operator==(const concat_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        // iterators of different containers must not be compared
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_iterator& other) const
     {
@@ -53,6 +52,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_container_1_end();
     }
 
     concat_iterator(Container&         c1,
@@ -62,9 +62,20 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_container_1_end();
     }
 
 private:
+    // the position after the last element of the first container is the
+    // beginning of the second one, also when the first container is empty
+    void skip_container_1_end()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     Container* container_1;
     Container* container_2;
 
@@ -93,10 +104,7 @@ public:
     concat_const_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_container_1_end();
         return *this;
     }
 
@@ -111,7 +119,9 @@ public:
     }
     bool operator==(const concat_const_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        // iterators of different containers must not be compared
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_const_iterator& other) const
     {
@@ -126,6 +136,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_container_1_end();
     }
 
     concat_const_iterator(const Container&   c1,
@@ -135,9 +146,20 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_container_1_end();
     }
 
 private:
+    // the position after the last element of the first container is the
+    // beginning of the second one, also when the first container is empty
+    void skip_container_1_end()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     const Container* container_1;
     const Container* container_2;
 
-- 
2.43.0


From 78b5abac336d3941d791faf163f7579483cb114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:13 +0000
Subject: [PATCH 27/40] fix: optional could not be instantiated with a type
 that has a destructor

---
 lib/include/sse/schemes/utils/optional.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/utils/optional.hpp b/lib/include/sse/schemes/utils/optional.hpp
index 563b200..b4371b1 100644
--- a/lib/include/sse/schemes/utils/optional.hpp
+++ b/lib/include/sse/schemes/utils/optional.hpp
@@ -341,7 +341,12 @@ union storage_t
     {
     }
 
-    ~storage_t() = default;
+    // a defaulted destructor would be deleted when T is not trivially
+    // destructible
+    // NOLINTNEXTLINE(modernize-use-equals-default)
+    ~storage_t()
+    {
+    }
 };
 
 
-- 
2.43.0


From 8116b6f19ab965ed639d9ce6c3fb312487e2ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 28/40] fix: the random groups of 100 documents used the
 keywords of the groups of 1000

---
 lib/utils/db_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..ea098c8 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -278,7 +278,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
-- 
2.43.0


From f566b5762db11b9b9b5884c6bae3058f7639fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 29/40] fix: the database generator did not generate anything
 when the number of hardware threads is unknown

---
 lib/utils/db_generator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index ea098c8..a8c7d49 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -28,6 +28,7 @@
 #include <cassert>
 #include <cmath>
 
+#include <algorithm>
 #include <atomic>
 #include <iostream>
 #include <list>
@@ -522,7 +523,9 @@ void gen_db(size_t                                                 N_entries,
     std::atomic_size_t entries_counter(0);
     std::atomic_size_t docs_counter(0);
 
-    unsigned int             n_threads = std::thread::hardware_concurrency();
+    // hardware_concurrency() returns 0 when the value cannot be computed
+    unsigned int n_threads
+        = std::max<unsigned int>(std::thread::hardware_concurrency(), 1);
     std::vector<std::thread> threads;
 
     for (unsigned int i = 0; i < n_threads; i++) {
-- 
2.43.0


From b9f26f7380397c3c79420cdb7b057490b4d58a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:09 +0000
Subject: [PATCH 30/40] fix: remove_directory took a failed traversal for the
 end of the directory

---
 lib/utils/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 440eac5..d9fb7b1 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -96,7 +96,9 @@ bool remove_directory(const std::string& path)
 
     FTSENT* curr;
 
-    while ((curr = fts_read(ftsp)) != nullptr) {
+    // fts_read returns NULL both at the end of the traversal (errno is then 0)
+    // and on failure
+    while (errno = 0, (curr = fts_read(ftsp)) != nullptr) {
         switch (curr->fts_info) {
         case FTS_NS:
         case FTS_DNR:
@@ -146,8 +148,17 @@ bool remove_directory(const std::string& path)
         }
     }
 
+    const int read_errno = errno;
+
     fts_close(ftsp);
 
+    if (read_errno != 0) {
+        std::string message = "When deleting directory " + path;
+        message += ": fts_read failed: ";
+        message += strerror(read_errno);
+        throw std::runtime_error(message);
+    }
+
     return true;
 }
 
-- 
2.43.0


From f3c7fb5b58eef08827e4b110ee02e10b5ec6a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:09 +0000
Subject: [PATCH 31/40] fix: remove_directory reported dangling links and
 inaccessible paths as removed

---
 lib/utils/utils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index d9fb7b1..a5b72c3 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -65,8 +65,18 @@ bool create_directory(const std::string& path, mode_t mode)
 // https://stackoverflow.com/a/27808574
 bool remove_directory(const std::string& path)
 {
-    if (!exists(path)) {
-        return true;
+    // Do not follow symbolic links: a dangling link has to be removed.
+    struct stat sb;
+
+    if (lstat(path.c_str(), &sb) != 0) {
+        if (errno == ENOENT || errno == ENOTDIR) {
+            return true;
+        }
+        // It is not known if there is something to remove
+        std::string message = "When deleting directory " + path;
+        message += ": lstat failed: ";
+        message += strerror(errno);
+        throw std::runtime_error(message);
     }
 
     const char* dir = path.c_str();
-- 
2.43.0


From 5191e1aa4af7993d754f0609f951202cfa12cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:09 +0000
Subject: [PATCH 32/40] fix: device_page_size returned an uninitialised value
 when the file system could not be queried

---
 lib/utils/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index a5b72c3..90fa48b 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -275,7 +275,9 @@ size_t device_page_size(int fd)
     struct statvfs stats;
 
 
-    fstatvfs(fd, &stats);
+    if (fstatvfs(fd, &stats) != 0) {
+        return 0; // unknown
+    }
 #if __APPLE__
     return stats.f_frsize;
 #else
@@ -291,8 +293,9 @@ size_t device_page_size(const std::string& path)
     struct statvfs stats;
 
 
-    statvfs(path.c_str(), &stats);
-
+    if (statvfs(path.c_str(), &stats) != 0) {
+        return 0; // unknown
+    }
 
     return stats.f_bsize;
 }
-- 
2.43.0


From 56d4294db8f5de621511d4a221943ab455e22fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:44 +0000
Subject: [PATCH 33/40] fix: load_inverted_index reported success when keywords
 could not be inserted, and its tasks outlived their counter

---
 lib/diana/client_runner.cpp         | 18 +++++++++++++-----
 lib/sophos/sophos_client_runner.cpp | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..230d9fe 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -36,7 +36,9 @@
 
 #include <chrono>
 #include <fstream>
+#include <future>
 #include <iostream>
+#include <list>
 #include <memory>
 #include <random>
 #include <string>
@@ -437,11 +439,12 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
+        // the tasks use the counter: it has to outlive the pool
+        std::atomic_size_t             counter(0);
+        std::list<std::future<void>>   tasks;
+        ThreadPool                     pool(std::thread::hardware_concurrency());
 
-        std::atomic_size_t counter(0);
-
-        auto add_list_callback = [this, &pool, &counter](
+        auto add_list_callback = [this, &pool, &tasks, &counter](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
             auto work = [this, &counter](const std::string&         keyword,
@@ -464,7 +467,7 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
                                            counter);
                 }
             };
-            pool.enqueue(work, kw, docs);
+            tasks.push_back(pool.enqueue(work, kw, docs));
         };
 
         parser.addCallbackList(add_list_callback);
@@ -479,6 +482,11 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 
         end_update_session();
 
+        // report the failures of the insertion tasks
+        for (auto& task : tasks) {
+            task.get();
+        }
+
         return true;
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": \n"
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..322f206 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -38,7 +38,9 @@
 
 #include <chrono>
 #include <fstream>
+#include <future>
 #include <iostream>
+#include <list>
 #include <memory>
 #include <random>
 #include <string>
@@ -384,11 +386,12 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
+        // the tasks use the counter: it has to outlive the pool
+        std::atomic_size_t             counter(0);
+        std::list<std::future<void>>   tasks;
+        ThreadPool                     pool(std::thread::hardware_concurrency());
 
-        std::atomic_size_t counter(0);
-
-        auto add_list_callback = [this, &pool, &counter](
+        auto add_list_callback = [this, &pool, &tasks, &counter](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
             auto work = [this, &counter](const std::string&         keyword,
@@ -403,7 +406,7 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
                                            counter);
                 }
             };
-            pool.enqueue(work, kw, docs);
+            tasks.push_back(pool.enqueue(work, kw, docs));
         };
 
 
@@ -420,6 +423,11 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 
         end_update_session();
 
+        // report the failures of the insertion tasks
+        for (auto& task : tasks) {
+            task.get();
+        }
+
         return true;
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": "
-- 
2.43.0


From 70b4bed39c542dfad989597943439b9645b68e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:44 +0000
Subject: [PATCH 34/40] fix: load_inverted_index left the update session open
 when the file could not be parsed

---
 lib/diana/client_runner.cpp         | 8 +++++++-
 lib/sophos/sophos_client_runner.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 230d9fe..68eeb21 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -475,7 +475,13 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
 
-        parser.parse();
+        try {
+            parser.parse();
+        } catch (...) {
+            pool.join();
+            end_update_session();
+            throw;
+        }
 
         pool.join();
         logger::logger()->info("Loading: {} keywords processed", counter);
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 322f206..be84751 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -416,7 +416,13 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
 
-        parser.parse();
+        try {
+            parser.parse();
+        } catch (...) {
+            pool.join();
+            end_update_session();
+            throw;
+        }
 
         pool.join();
         logger::logger()->info("Loading: {} keywords processed", counter);
-- 
2.43.0


From 5f850670fe43281342e580579ab6f41ae063b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:44 +0000
Subject: [PATCH 35/40] fix: the runners searched and loaded nothing, or
 divided by zero, on hosts reporting 0 or 256 hardware threads

---
 lib/diana/client_runner.cpp         |  4 +++-
 lib/diana/server_runner.cpp         | 11 ++++++++++-
 lib/sophos/sophos_client_runner.cpp |  4 +++-
 lib/sophos/sophos_server_runner.cpp | 13 +++++++++++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 68eeb21..75db574 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -34,6 +34,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <future>
@@ -442,7 +443,8 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
         // the tasks use the counter: it has to outlive the pool
         std::atomic_size_t             counter(0);
         std::list<std::future<void>>   tasks;
-        ThreadPool                     pool(std::thread::hardware_concurrency());
+        ThreadPool                     pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
         auto add_list_callback = [this, &pool, &tasks, &counter](
                                      const std::string&         kw,
diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..72b62ba 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -31,6 +31,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -43,6 +44,14 @@ namespace diana {
 const char* DianaImpl::pairs_map_file    = "pairs.dat";
 const char* DianaImpl::wrapping_key_file = "wrapping.key";
 
+// Number of threads of the parallel searches. It may be unknown, and does not
+// necessarily fit in 8 bits.
+static uint8_t search_threads_count()
+{
+    return static_cast<uint8_t>(std::min<unsigned>(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 1), 255));
+}
+
 DianaImpl::DianaImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -278,7 +287,7 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                                      // only if there are more than 2 results
 
             server_->search_parallel(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, search_threads_count());
 
         } else {
             server_->search(req, post_callback);
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index be84751..32d2c36 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -36,6 +36,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <future>
@@ -389,7 +390,8 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
         // the tasks use the counter: it has to outlive the pool
         std::atomic_size_t             counter(0);
         std::list<std::future<void>>   tasks;
-        ThreadPool                     pool(std::thread::hardware_concurrency());
+        ThreadPool                     pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
         auto add_list_callback = [this, &pool, &tasks, &counter](
                                      const std::string&         kw,
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..2c70053 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -40,6 +41,14 @@ namespace sophos {
 const char* SophosImpl::pk_file        = "tdp_pk.key";
 const char* SophosImpl::pairs_map_file = "pairs.dat";
 
+// Number of threads of the parallel searches. It may be unknown, and does not
+// necessarily fit in 8 bits.
+static uint8_t search_threads_count()
+{
+    return static_cast<uint8_t>(std::min<unsigned>(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 1), 255));
+}
+
 SophosImpl::SophosImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -229,10 +238,10 @@ grpc::Status SophosImpl::async_search(
         if (mes->add_count() >= 40) { // run the search algorithm in parallel
                                       // only if there are more than 2 results
             server_->search_parallel_callback(
-                req, post_callback, std::thread::hardware_concurrency(), 8, 1);
+                req, post_callback, search_threads_count(), 8, 1);
         } else if (mes->add_count() >= 2) {
             server_->search_parallel_light_callback(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, search_threads_count());
         } else {
             server_->search_callback(req, post_callback);
         }
-- 
2.43.0


From 705876581277a42d9f7d6c4269c8f472d6666451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:44 +0000
Subject: [PATCH 36/40] fix: the synchronous Diana search replied 0 for entries
 that are not stored

---
 lib/diana/server_runner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 72b62ba..6d7d53b 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -34,6 +34,7 @@
 #include <algorithm>
 #include <atomic>
 #include <fstream>
+#include <list>
 #include <thread>
 #include <utility>
 
@@ -223,7 +224,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
 
-    std::vector<uint64_t> res_list(req.add_count);
+    std::list<index_type> res_list;
 
     logger::logger()->trace("{} expected matches", req.add_count);
 
@@ -232,7 +233,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
     } else {
         {
             SearchBenchmark bench("Diana synchronous search");
-            server_->search_parallel(req, 8, res_list);
+            res_list = server_->search_parallel(req, 8);
             bench.set_count(res_list.size());
         }
         for (auto& i : res_list) {
-- 
2.43.0


From 0844cf7569a21623f4b88855b7ea30f9aa003a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:29 +0000
Subject: [PATCH 37/40] fix: the servers copied fields of the wrong size past
 the ends of the requests and crashed on malformed searches

---
 lib/diana/server_runner.cpp         | 53 +++++++++++++++++++++++++----
 lib/sophos/sophos_server_runner.cpp | 34 ++++++++++++++++++
 2 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 6d7d53b..2db3bc0 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -35,6 +35,7 @@
 #include <atomic>
 #include <fstream>
 #include <list>
+#include <stdexcept>
 #include <thread>
 #include <utility>
 
@@ -53,6 +54,19 @@ static uint8_t search_threads_count()
         std::max<unsigned>(std::thread::hardware_concurrency(), 1), 255));
 }
 
+// The size of the fields of the messages is chosen by the client.
+static bool is_valid(const UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
+static grpc::Status malformed_request()
+{
+    logger::logger()->error("Malformed request");
+
+    return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed request");
+}
+
 DianaImpl::DianaImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -203,10 +217,14 @@ grpc::Status DianaImpl::search(grpc::ServerContext*             context,
                                const SearchRequestMessage*      mes,
                                grpc::ServerWriter<SearchReply>* writer)
 {
-    if (async_search_) {
-        return async_search(context, mes, writer);
+    try {
+        if (async_search_) {
+            return async_search(context, mes, writer);
+        }
+        return sync_search(context, mes, writer);
+    } catch (const std::invalid_argument&) {
+        return malformed_request();
     }
-    return sync_search(context, mes, writer);
 }
 
 grpc::Status DianaImpl::sync_search(__attribute__((unused))
@@ -319,6 +337,10 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Updating ...");
 
+    if (!is_valid(mes)) {
+        return malformed_request();
+    }
+
     server_->insert(message_to_request(mes));
 
     logger::logger()->trace("Update done");
@@ -342,6 +364,10 @@ grpc::Status DianaImpl::bulk_insert(
     UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_valid(&mes)) {
+            flush_server_storage();
+            return malformed_request();
+        }
         server_->insert(message_to_request(&mes));
     }
 
@@ -383,10 +409,25 @@ SearchRequest message_to_request(
 
     std::vector<uint8_t> rcprf_rep_buffer(mes->constrained_rcprf_rep().begin(),
                                           mes->constrained_rcprf_rep().end());
-    constrained_rcprf_type rcprf
-        = wrapper->unwrap<constrained_rcprf_type>(rcprf_rep_buffer);
-
     keyword_token_type kw_token;
+
+    if (mes->kw_token().size() != kKeywordTokenSize) {
+        throw std::invalid_argument("Invalid keyword token size");
+    }
+
+    constrained_rcprf_type rcprf = [&]() {
+        try {
+            return wrapper->unwrap<constrained_rcprf_type>(rcprf_rep_buffer);
+        } catch (const std::exception& err) {
+            throw std::invalid_argument("Invalid constrained RCPRF: "
+                                        + std::string(err.what()));
+        }
+    }();
+
+    if (add_count > 0 && add_count - 1 > rcprf.max_leaf()) {
+        throw std::invalid_argument("Invalid number of matches");
+    }
+
     std::copy(mes->kw_token().begin(), mes->kw_token().end(), kw_token.begin());
 
     return SearchRequest(kw_token, std::move(rcprf), add_count);
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 2c70053..872c47b 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -49,6 +49,25 @@ static uint8_t search_threads_count()
         std::max<unsigned>(std::thread::hardware_concurrency(), 1), 255));
 }
 
+// The size of the fields of the messages is chosen by the client.
+static bool is_valid(const SearchRequestMessage* mes)
+{
+    return mes->search_token().size() == kSearchTokenSize
+           && mes->derivation_key().size() == kDerivationKeySize;
+}
+
+static bool is_valid(const UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
+static grpc::Status malformed_request()
+{
+    logger::logger()->error("Malformed request");
+
+    return grpc::Status(grpc::INVALID_ARGUMENT, "Malformed request");
+}
+
 SophosImpl::SophosImpl(std::string path)
     : storage_path_(std::move(path)), async_search_(true)
 {
@@ -178,6 +197,10 @@ grpc::Status SophosImpl::sync_search(
                             "The server is not set up");
     }
 
+    if (!is_valid(mes)) {
+        return malformed_request();
+    }
+
     logger::logger()->trace("Start synchronous search...");
     std::list<uint64_t> res_list;
 
@@ -214,6 +237,10 @@ grpc::Status SophosImpl::async_search(
                             "The server is not set up");
     }
 
+    if (!is_valid(mes)) {
+        return malformed_request();
+    }
+
     logger::logger()->trace("Start asynchronous search...");
     auto req = message_to_request(mes);
 
@@ -269,6 +296,10 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_valid(mes)) {
+        return malformed_request();
+    }
+
     logger::logger()->trace("Start updating");
 
     server_->insert(message_to_request(mes));
@@ -293,6 +324,9 @@ grpc::Status SophosImpl::bulk_insert(
     sophos::UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_valid(&mes)) {
+            return malformed_request();
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From c194d978400e8b45874222d42da15066c0c7a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:29 +0000
Subject: [PATCH 38/40] fix: a failed setup left the server half set up, or
 blocked later setups and restarts

---
 lib/diana/server_runner.cpp         | 38 ++++++++++++++++++++---------
 lib/sophos/sophos_server_runner.cpp | 23 ++++++++++++++---
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 2db3bc0..4b11ab9 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -60,6 +60,18 @@ static bool is_valid(const UpdateRequestMessage* mes)
     return mes->update_token().size() == kUpdateTokenSize;
 }
 
+// Remove what a failed setup left behind, so that it can be tried again.
+static void clean_failed_setup(const std::string& path)
+{
+    try {
+        utility::remove_directory(path);
+    } catch (const std::exception& err) {
+        logger::logger()->error(
+            "Error when cleaning the server's content directory: \n"
+            + std::string(err.what()));
+    }
+}
+
 static grpc::Status malformed_request()
 {
     logger::logger()->error("Malformed request");
@@ -139,6 +151,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -172,6 +191,8 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                                 + std::string(err.what()));
 
         server_.reset();
+        clean_failed_setup(storage_path_);
+
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core.");
     }
@@ -181,8 +202,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
     std::string wrapping_key_path = storage_path_ + "/" + wrapping_key_file;
 
     std::ofstream wrapping_key_out(wrapping_key_path.c_str());
-    if (!wrapping_key_out.is_open()) {
+    wrapping_key_out << message->wrapping_key();
+    wrapping_key_out.close();
+
+    if (!wrapping_key_out.good()) {
         // error
+        server_.reset();
+        clean_failed_setup(storage_path_);
 
         logger::logger()->error("Error when writing the wrapping key");
 
@@ -190,16 +216,6 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
-    wrapping_key_out << message->wrapping_key();
-    wrapping_key_out.close();
-
     std::array<uint8_t, crypto::Wrapper::kKeySize> wrapping_key;
     std::copy(message->wrapping_key().begin(),
               message->wrapping_key().end(),
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 872c47b..b8d8446 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -61,6 +61,18 @@ static bool is_valid(const UpdateRequestMessage* mes)
     return mes->update_token().size() == kUpdateTokenSize;
 }
 
+// Remove what a failed setup left behind, so that it can be tried again.
+static void clean_failed_setup(const std::string& path)
+{
+    try {
+        utility::remove_directory(path);
+    } catch (const std::exception& err) {
+        logger::logger()->error(
+            "Error when cleaning the server's content directory: \n"
+            + std::string(err.what()));
+    }
+}
+
 static grpc::Status malformed_request()
 {
     logger::logger()->error("Malformed request");
@@ -151,6 +163,8 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
                                 + std::string(err.what()));
 
         server_.reset();
+        clean_failed_setup(storage_path_);
+
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core. Exception: "
                                 + std::string(err.what()));
@@ -160,16 +174,19 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
     std::string pk_path = storage_path_ + "/" + pk_file;
 
     std::ofstream pk_out(pk_path.c_str());
-    if (!pk_out.is_open()) {
+    pk_out << message->public_key();
+    pk_out.close();
+
+    if (!pk_out.good()) {
         // error
+        server_.reset();
+        clean_failed_setup(storage_path_);
 
         logger::logger()->error("Error when writing the public key");
 
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the public key to disk");
     }
-    pk_out << message->public_key();
-    pk_out.close();
 
     logger::logger()->trace("Successful setup");
 
-- 
2.43.0


From a65d30ea9eaa74e77af8147dc374976cfba519ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:01 +0000
Subject: [PATCH 39/40] fix: logging could only be disabled once, and failed if
 the application had a logger of the same name

---
 lib/utils/logger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 0d19cf8..3ca5999 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -42,8 +42,11 @@ std::shared_ptr<spdlog::logger> logger()
     std::lock_guard<std::mutex> lock(shared_logger_mutex_);
 
     if (!shared_logger_) {
-        // initialize the logger
-        shared_logger_ = spdlog::stderr_color_mt("console");
+        // initialize the logger, unless the application has one of this name
+        shared_logger_ = spdlog::get("console");
+        if (!shared_logger_) {
+            shared_logger_ = spdlog::stderr_color_mt("console");
+        }
     }
     return shared_logger_;
 }
@@ -55,8 +58,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // do not register this logger: its name could already be taken
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
-- 
2.43.0


From fdd4a2b93439fbf8c4ba8fba570c50bad62ff292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:01 +0000
Subject: [PATCH 40/40] fix: the benchmark file could only be set once, a
 stopped benchmark kept running, and both raced with each other

---
 lib/utils/logger.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 3ca5999..fde50bc 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -71,9 +71,16 @@ void set_logging_level(spdlog::level::level_enum log_level)
 } // namespace logger
 
 std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
+// benchmarks can end while the file is changed
+static std::mutex benchmark_logger_mutex_;
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    std::lock_guard<std::mutex> lock(benchmark_logger_mutex_);
+
+    // the name of the previous logger can only be used again once it is dropped
+    spdlog::drop("benchmark");
+
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
@@ -91,15 +98,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
@@ -115,8 +124,14 @@ Benchmark::~Benchmark()
         time_per_item /= static_cast<long double>(count_);
     }
 
-    if (benchmark_logger_) {
-        benchmark_logger_->trace(
+    std::shared_ptr<spdlog::logger> benchmark_logger;
+    {
+        std::lock_guard<std::mutex> lock(benchmark_logger_mutex_);
+        benchmark_logger = benchmark_logger_;
+    }
+
+    if (benchmark_logger) {
+        benchmark_logger->trace(
             format_.c_str(), count_, time_ms.count(), time_per_item.count());
     }
 }
-- 
2.43.0

