From 5375b4e59941b3232c66c6c003ae7117f4872a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 01/31] fix: store posted tasks and replies by value, also when
 passed as lvalues

Posting a named callable stored a reference to it in the queued closure, so the
task ran on (and moved from) an object that may have gone out of scope.
---
 fly/task/task_runner.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 7cb7c17..624e080 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -651,7 +651,7 @@ Task TaskRunner::wrap_task(TaskType &&task)
 {
     static_assert(std::is_invocable_v<TaskType>, "Task must be invocable without any arguments");
 
-    TaskHolder<TaskType> holder {std::forward<TaskType>(task)};
+    TaskHolder<std::decay_t<TaskType>> holder {std::forward<TaskType>(task)};
 
     return [holder = std::move(holder)](TaskRunner *, TaskLocation) mutable {
         FLY_UNUSED(std::invoke(std::move(holder.m_task)));
@@ -668,7 +668,7 @@ Task TaskRunner::wrap_task(std::weak_ptr<OwnerType> weak_owner, TaskType &&task)
         std::is_invocable_v<TaskType, StrongOwnerType>,
         "Task must be invocable with only a strong pointer to its owner");
 
-    TaskHolder<TaskType> holder {std::forward<TaskType>(task)};
+    TaskHolder<std::decay_t<TaskType>> holder {std::forward<TaskType>(task)};
 
     return [weak_owner = std::move(weak_owner),
             holder = std::move(holder)](TaskRunner *, TaskLocation) mutable {
@@ -695,8 +695,8 @@ Task TaskRunner::wrap_task(TaskType &&task, ReplyType &&reply)
         "that type, or the task must return void and the reply must be invocable without any "
         "arguments");
 
-    TaskHolder<TaskType> task_holder {std::forward<TaskType>(task)};
-    TaskHolder<ReplyType> reply_holder {std::forward<ReplyType>(reply)};
+    TaskHolder<std::decay_t<TaskType>> task_holder {std::forward<TaskType>(task)};
+    TaskHolder<std::decay_t<ReplyType>> reply_holder {std::forward<ReplyType>(reply)};
 
     return [task_holder = std::move(task_holder),
             reply_holder =
@@ -737,8 +737,8 @@ Task TaskRunner::wrap_task(std::weak_ptr<OwnerType> weak_owner, TaskType &&task,
         "type and a strong pointer to its owner, or the task must return void and the reply must "
         "be invocable with only a strong pointer to its owner");
 
-    TaskHolder<TaskType> task_holder {std::forward<TaskType>(task)};
-    TaskHolder<ReplyType> reply_holder {std::forward<ReplyType>(reply)};
+    TaskHolder<std::decay_t<TaskType>> task_holder {std::forward<TaskType>(task)};
+    TaskHolder<std::decay_t<ReplyType>> reply_holder {std::forward<ReplyType>(reply)};
 
     return [weak_owner = std::move(weak_owner),
             task_holder = std::move(task_holder),
-- 
2.43.0


From c84210b40ddb22c3131e0d329729957e27af0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 02/31] fix: do not move from a named reply posted with a
 delayed, owner-bound task

---
 fly/task/task_runner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 624e080..9428c85 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -642,7 +642,10 @@ bool TaskRunner::post_task_with_delay_and_reply(
     return post_task_to_task_manager_with_delay(
         std::move(location),
         std::move(delay),
-        wrap_task(std::move(weak_owner), std::forward<TaskType>(task), std::move(reply)));
+        wrap_task(
+            std::move(weak_owner),
+            std::forward<TaskType>(task),
+            std::forward<ReplyType>(reply)));
 }
 
 //==================================================================================================
-- 
2.43.0


From 8a80fa89d6bedaaa127b9a539226d3f041d30776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 03/31] fix: remove a file and its unused path under one lock,
 so that a path added in between survives

---
 fly/path/path_monitor.cpp | 42 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..fcb7eb8 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,33 +131,35 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
-    {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        auto path_it = m_path_info.find(file.parent_path());
+    std::lock_guard<std::mutex> lock(m_mutex);
 
-        if (path_it == m_path_info.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    auto path_it = m_path_info.find(file.parent_path());
 
-        PathInfo *info = path_it->second.get();
-        auto file_it = info->m_file_handlers.find(file.filename());
+    if (path_it == m_path_info.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        if (file_it == info->m_file_handlers.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    PathInfo *info = path_it->second.get();
+    auto file_it = info->m_file_handlers.find(file.filename());
 
-        LOGD("Stopped monitoring {}", file);
-        info->m_file_handlers.erase(file_it);
+    if (file_it == info->m_file_handlers.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
+
+    LOGD("Stopped monitoring {}", file);
+    info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+    if (info->m_file_handlers.empty() && !(info->m_path_handler))
+    {
+        LOGI("Removed monitor for {}", path_it->first);
+        m_path_info.erase(path_it);
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From 990799705f903295b04bfa802b9fe97b4607440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 04/31] fix: close a socket's own handle when another socket is
 moved onto it

---
 fly/net/socket/detail/base_socket.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..82ca6af 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -65,13 +65,18 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
-    m_weak_socket_service = std::move(socket.m_weak_socket_service);
-    m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
-    m_socket_id = socket.m_socket_id;
-    m_mode = socket.m_mode;
+    if (this != &socket)
+    {
+        close();
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
+        m_weak_socket_service = std::move(socket.m_weak_socket_service);
+        m_config = std::move(socket.m_config);
+        m_socket_handle = socket.m_socket_handle;
+        m_socket_id = socket.m_socket_id;
+        m_mode = socket.m_mode;
+
+        socket.m_socket_handle = fly::net::detail::invalid_socket();
+    }
 
     return *this;
 }
-- 
2.43.0


From 5383b1d9680bba5cd09b376c74b93e5ef9fd849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 05/31] fix: remove inotify watches before closing the
 descriptor they belong to

The watches held by the registered paths were removed by the base class'
destructor, after the monitor's descriptor had been closed (and possibly
reused by another thread).
---
 fly/path/nix/path_monitor_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..4c41e86 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -36,6 +36,9 @@ PathMonitorImpl::PathMonitorImpl(
 //==================================================================================================
 PathMonitorImpl::~PathMonitorImpl()
 {
+    // The watches belong to the monitor's descriptor, so they must be removed before it is closed.
+    remove_all_paths();
+
     if (m_monitor_descriptor != -1)
     {
         ::close(m_monitor_descriptor);
-- 
2.43.0


From 75d5b7cc6736483d588afc25076927aea5e6e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 06/31] fix: report unreadable files from the parsers instead
 of throwing

The stream buffers the parsers read from raise std::ios::failure if the
underlying file cannot be read (e.g. if it is a directory), which escaped
parse_file and, through it, a configuration reload.
---
 fly/parser/parser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 52579ba..a444350 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -1,5 +1,7 @@
 #include "fly/parser/parser.hpp"
 
+#include "fly/logger/logger.hpp"
+
 #include <cstring>
 #include <fstream>
 
@@ -94,7 +96,18 @@ std::optional<fly::Json> Parser::parse_stream(std::istream &&stream)
     m_column = 0;
 
     m_stream_buffer = stream.rdbuf();
-    auto result = parse_internal();
+    std::optional<fly::Json> result;
+
+    try
+    {
+        result = parse_internal();
+    }
+    catch (std::ios::failure const &ex)
+    {
+        // Unlike the stream itself, the stream's buffer raises an exception if it cannot be read.
+        LOGW("Could not read stream: {}", ex.what());
+    }
+
     m_stream_buffer = nullptr;
 
     return result;
-- 
2.43.0


From c220496a03d0d51dc27d1909d038fb876e715075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 07/31] fix: do not corrupt a full bit stream buffer when
 another 64 bits are written

---
 fly/types/bit_stream/bit_stream_writer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..f7b5322 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -107,8 +107,13 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. If no bits are available, there is nothing to fill (and it is undefined
+        // behavior to bit-shift by the size of the value being shifted).
+        if (m_position > 0)
+        {
+            m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        }
+
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From 6d04411bbcb7eae0e7cc2241d8c4d4a1f5e1e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 08/31] fix: notice when a bit stream could not be written

---
 fly/types/bit_stream/bit_stream_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index f7b5322..5e11a2e 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -135,9 +135,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        std::streamsize const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From 16655bb1b0342cf0cf72c628ace13de227468e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 09/31] fix: handle streams which cannot be read in the bit
 stream reader

The constructor is noexcept, so a failure to read the underlying file (e.g. if
it is a directory) terminated the process. Such streams are now marked as bad,
and decoding them fails.
---
 fly/coders/coder.cpp                       |  2 +-
 fly/types/bit_stream/bit_stream_reader.cpp | 19 +++++++++++++--
 fly/types/bit_stream/bit_stream_reader.hpp | 27 +++++++++++++++++-----
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index feb8304..8c5f9da 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -162,7 +162,7 @@ bool Decoder::decode_file(
 bool BinaryDecoder::decode_internal(std::istream &encoded, std::ostream &decoded)
 {
     fly::BitStreamReader stream(encoded);
-    return decode_binary(stream, decoded);
+    return decode_binary(stream, decoded) && !encoded.bad();
 }
 
 } // namespace fly::coders
diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index f0cc7db..1c92eab 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -44,7 +44,7 @@ bool BitStreamReader::fully_consumed() const
 {
     if (m_position == 0)
     {
-        return m_stream_buffer->sgetc() == EOF;
+        return end_of_stream();
     }
 
     return false;
@@ -77,7 +77,7 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (m_stream_buffer->sgetc() == EOF)
+        if (end_of_stream())
         {
             // At end-of-file, discard any encoded zero-filled bits.
             m_position -= m_remainder;
@@ -86,4 +86,19 @@ void BitStreamReader::refill_buffer()
     }
 }
 
+//==================================================================================================
+bool BitStreamReader::end_of_stream() const
+{
+    try
+    {
+        return m_stream_buffer->sgetc() == EOF;
+    }
+    catch (std::ios::failure const &)
+    {
+        m_stream.setstate(std::ios::badbit);
+    }
+
+    return true;
+}
+
 } // namespace fly
diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..226780b 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -124,6 +124,14 @@ private:
      */
     void refill_buffer();
 
+    /**
+     * Check if the stream has reached end-of-file. A stream which cannot be read is marked as bad, and
+     * is treated as having reached end-of-file.
+     *
+     * @return True if there is nothing left to read from the stream.
+     */
+    bool end_of_stream() const;
+
     /**
      * Read from the stream to fill a byte buffer.
      *
@@ -238,12 +246,19 @@ byte_type BitStreamReader::fill(DataType &buffer, byte_type bytes)
 {
     if (m_stream)
     {
-        std::streamsize const bytes_read = m_stream_buffer->sgetn(
-            reinterpret_cast<std::ios::char_type *>(&buffer),
-            static_cast<std::streamsize>(bytes));
-
-        buffer = endian_swap_if_non_native<std::endian::big>(buffer);
-        return static_cast<byte_type>(bytes_read);
+        try
+        {
+            std::streamsize const bytes_read = m_stream_buffer->sgetn(
+                reinterpret_cast<std::ios::char_type *>(&buffer),
+                static_cast<std::streamsize>(bytes));
+
+            buffer = endian_swap_if_non_native<std::endian::big>(buffer);
+            return static_cast<byte_type>(bytes_read);
+        }
+        catch (std::ios::failure const &)
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 
     return 0;
-- 
2.43.0


From 4c5cfccd7b3fa6635a3904ea6967551fb3484c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 10/31] fix: do not report success for an input stream which
 could not be read

---
 fly/coders/coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index 8c5f9da..dcb09d2 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -104,7 +104,7 @@ bool Encoder::encode_file(
 bool BinaryEncoder::encode_internal(std::istream &decoded, std::ostream &encoded)
 {
     fly::BitStreamWriter stream(encoded);
-    return encode_binary(decoded, stream);
+    return encode_binary(decoded, stream) && !decoded.bad();
 }
 
 //==================================================================================================
-- 
2.43.0


From 5bf3b64a79b50b7972d4075fd629f4c0f10de632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 11/31] fix: do not report success for an output file which
 could not be written

---
 fly/coders/coder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index dcb09d2..5861b0a 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -85,7 +85,7 @@ bool Encoder::encode_file(
 
         if (input && output)
         {
-            successful = encode_internal(input, output);
+            successful = encode_internal(input, output) && output.flush().good();
         }
     }
 
@@ -143,7 +143,7 @@ bool Decoder::decode_file(
 
         if (input && output)
         {
-            successful = decode_internal(input, output);
+            successful = decode_internal(input, output) && output.flush().good();
         }
     }
 
-- 
2.43.0


From 696b895f65312539bcdd9400a04218ee690f47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 12/31] fix: do not throw from a file coder after the file was
 coded

The sizes of the files are only needed for logging, and may not be available
(e.g. if a file was concurrently removed).
---
 fly/coders/coder.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index 5861b0a..04909b8 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <fstream>
 #include <sstream>
+#include <system_error>
 
 namespace fly::coders {
 
@@ -91,10 +92,12 @@ bool Encoder::encode_file(
 
     if (successful)
     {
+        std::error_code error;
+
         log_encoder_stats(
             start,
-            std::filesystem::file_size(decoded),
-            std::filesystem::file_size(encoded));
+            std::filesystem::file_size(decoded, error),
+            std::filesystem::file_size(encoded, error));
     }
 
     return successful;
@@ -149,10 +152,12 @@ bool Decoder::decode_file(
 
     if (successful)
     {
+        std::error_code error;
+
         log_decoder_stats(
             start,
-            std::filesystem::file_size(encoded),
-            std::filesystem::file_size(decoded));
+            std::filesystem::file_size(encoded, error),
+            std::filesystem::file_size(decoded, error));
     }
 
     return successful;
-- 
2.43.0


From b75cc1734479b3a52873a9291818cabf6fb3b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 13/31] fix: do not throw from the file sink if a compressed
 log file cannot be removed

---
 fly/logger/detail/file_sink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index b518296..7231771 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -65,7 +65,8 @@ bool FileSink::create_log_file()
 
             if (encoder.encode_file(m_log_file, compressed_log_file))
             {
-                std::filesystem::remove(m_log_file);
+                std::error_code error;
+                std::filesystem::remove(m_log_file, error);
             }
         }
     }
-- 
2.43.0


From 68aa486ca28873c011410cf5779ca5e518958637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 14/31] fix: Do not unregister a logger when another of the
 same name is refused

---
 fly/logger/detail/registry.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..f41d48d 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -83,7 +83,12 @@ void Registry::unregister_logger(std::string const &name)
     }
 
     std::lock_guard<std::mutex> lock(m_registry_mutex);
-    m_registry.erase(name);
+
+    // The name may belong to another logger, if the logger being destroyed was refused registration.
+    if (auto it = m_registry.find(name); (it != m_registry.end()) && it->second.expired())
+    {
+        m_registry.erase(it);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From c5f799bd2bca113ae9c2fb807aaa2c9c47dbb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 15/31] fix: Report a log record which could not be written to
 the log file

---
 fly/logger/detail/file_sink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index 7231771..0d00325 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -36,6 +36,12 @@ bool FileSink::stream(fly::logger::Log &&log)
     if (m_log_stream.good())
     {
         m_log_stream << log << std::flush;
+
+        if (!m_log_stream.good())
+        {
+            return false;
+        }
+
         std::error_code error;
 
         if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
-- 
2.43.0


From a61240d30ff46d2a1df44f2d2aee303e0e349aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 16/31] fix: Do not report an encoding as successful if its
 input was not read to the end

---
 fly/coders/coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index 04909b8..2382d24 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -107,7 +107,7 @@ bool Encoder::encode_file(
 bool BinaryEncoder::encode_internal(std::istream &decoded, std::ostream &encoded)
 {
     fly::BitStreamWriter stream(encoded);
-    return encode_binary(decoded, stream) && !decoded.bad();
+    return encode_binary(decoded, stream) && decoded.eof() && !decoded.bad();
 }
 
 //==================================================================================================
-- 
2.43.0


From 65b04ef269b5578a8ef78aef4dc7a317a6bece83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 17/31] fix: Do not turn a null JSON value into an object when
 a merge is refused

---
 fly/types/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..59b0cb6 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -713,8 +713,8 @@ void Json::swap(reference json)
 //==================================================================================================
 void Json::merge(fly::Json &other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(other_storage);
 }
@@ -722,8 +722,8 @@ void Json::merge(fly::Json &other)
 //==================================================================================================
 void Json::merge(fly::Json &&other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(std::move(other_storage));
 }
-- 
2.43.0


From 9968d0ff80050856e515f13fd6c0754548fa26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 18/31] fix: Reject the minimum offset of a JSON iterator

---
 fly/types/json/detail/json_iterator.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fly/types/json/detail/json_iterator.hpp b/fly/types/json/detail/json_iterator.hpp
index 73aca05..8ceb492 100644
--- a/fly/types/json/detail/json_iterator.hpp
+++ b/fly/types/json/detail/json_iterator.hpp
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <variant>
 
@@ -742,6 +743,14 @@ auto JsonIterator<JsonType>::operator+=(difference_type offset) -> JsonIterator
 template <fly::SameAs<Json> JsonType>
 auto JsonIterator<JsonType>::operator-=(difference_type offset) -> JsonIterator &
 {
+    validate_iterator();
+
+    // The minimum offset cannot be negated, and is out of range for any JSON value.
+    if (offset == std::numeric_limits<difference_type>::min())
+    {
+        throw OutOfRangeJsonException(*m_json, offset);
+    }
+
     return *this += -offset;
 }
 
@@ -854,20 +863,20 @@ template <typename T>
 void JsonIterator<JsonType>::validate_offset(T const &it, difference_type offset) const
 
 {
-    difference_type distance = 0;
+    bool out_of_range = false;
 
     if (offset >= 0)
     {
         JsonIterator const end = m_json->end();
-        distance = std::distance(it, std::get<T>(end.m_iterator));
+        out_of_range = offset > std::distance(it, std::get<T>(end.m_iterator));
     }
     else
     {
         JsonIterator const begin = m_json->begin();
-        distance = std::distance(std::get<T>(begin.m_iterator), it);
+        out_of_range = offset < -std::distance(std::get<T>(begin.m_iterator), it);
     }
 
-    if (std::abs(offset) > distance)
+    if (out_of_range)
     {
         throw OutOfRangeJsonException(*m_json, offset);
     }
-- 
2.43.0


From 86240d82389a0e020902be139826c0a6b8876a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 19/31] fix: Do not clear a JSON array when its largest index
 is accessed

---
 fly/types/json/json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 59b0cb6..d19eee5 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -258,6 +258,11 @@ Json::const_reference Json::at(size_type index) const
 //==================================================================================================
 Json::reference Json::operator[](size_type index)
 {
+    if (index >= json_array_type().max_size())
+    {
+        throw JsonException(*this, fly::string::format("Given index ({}) is too large", index));
+    }
+
     auto &storage = get_or_promote<json_array_type>("JSON type invalid for operator[index]");
 
     if (index >= storage.size())
-- 
2.43.0


From 261718fdffd0b503186f9b31b3d84120a2db3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:12 +0000
Subject: [PATCH 20/31] fix: Do not classify negative characters as digits

---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From 658aa4e0d0a45fb7adadc5b78abb29bbfe84c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 21/31] fix: Do not wrap numbers around which are too large for
 the lexer

---
 fly/types/string/lexer.hpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..5359052 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -105,7 +106,8 @@ public:
     /**
      * Beginning with the current position, retrieve characters from the C-string literal and
      * advance the current position to the next character until a character is either not available
-     * or not a decimal digit. Convert the retrieved characters to an unsigned number.
+     * or not a decimal digit. Convert the retrieved characters to an unsigned number. If
+     * the number is too large to be represented, the current position is not changed.
      *
      * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
      */
@@ -114,7 +116,8 @@ public:
     /**
      * Beginning with the current position, retrieve characters from the C-string literal and
      * advance the current position to the next character until a character is either not available
-     * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
+     * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number. If
+     * the number is too large to be represented, the current position is not changed.
      *
      * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
      */
@@ -226,15 +229,25 @@ constexpr bool BasicLexer<CharType>::consume_if(CharType ch)
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
+    constexpr auto const s_max = std::numeric_limits<std::uintmax_t>::max();
+
+    std::size_t const start = m_index;
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_digit))
     {
+        auto const digit = static_cast<std::uintmax_t>(ch.value() - s_zero);
         parsed_number = true;
 
+        if (number > ((s_max - digit) / 10))
+        {
+            m_index = start;
+            return std::nullopt;
+        }
+
         number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        number += digit;
     }
 
     return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
@@ -244,12 +257,22 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
+    constexpr auto const s_max = std::numeric_limits<std::uintmax_t>::max();
+
+    std::size_t const start = m_index;
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
+
+        if (number > (s_max / 16))
+        {
+            m_index = start;
+            return std::nullopt;
+        }
+
         number *= 16;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
-- 
2.43.0


From 32598ad252284750d73734e6eee799da28f4b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 22/31] fix: Reject integer literals which are too large for
 any integer type

---
 fly/types/numeric/detail/literal_parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/numeric/detail/literal_parser.hpp b/fly/types/numeric/detail/literal_parser.hpp
index a349ea1..70be82d 100644
--- a/fly/types/numeric/detail/literal_parser.hpp
+++ b/fly/types/numeric/detail/literal_parser.hpp
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace fly::detail {
@@ -50,8 +51,15 @@ struct Aggregator<T, Base, Digit, Literals...>
 {
     static constexpr T aggregate(T aggregated)
     {
-        return Aggregator<T, Base, Literals...>::aggregate(
-            aggregated * Base + parse_and_validate_literal());
+        constexpr T const digit = parse_and_validate_literal();
+
+        // Throwing is not a constant expression, so a literal which is too large does not compile.
+        if (aggregated > ((std::numeric_limits<T>::max() - digit) / Base))
+        {
+            throw std::overflow_error("Integer literal is too large");
+        }
+
+        return Aggregator<T, Base, Literals...>::aggregate(aggregated * Base + digit);
     }
 
 private:
-- 
2.43.0


From b958c0fcc6635ed1788fb0927c7cb3ccb3f012fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 23/31] fix: Use the default presentation of the standard
 formatter a user-defined formatter extends

---
 fly/types/string/detail/format_specifier.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 2b29472..070422c 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -684,6 +684,12 @@ constexpr void BasicFormatSpecifier<CharType>::parse_type(FormatParseContext &co
             }
         }
     }
+
+    // User-defined formatters which extend a standard formatter have that formatter's default type.
+    if (m_type == Type::None)
+    {
+        infer_type(context);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From 1b955ee7d6f8b45106dc01e68b378843b0698215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 24/31] fix: Allow formatting options for user-defined
 formatters which extend a standard formatter

---
 fly/types/string/detail/format_specifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 070422c..3424afc 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -488,7 +488,7 @@ private:
     using FormatSpecifier::m_case;                                                                 \
     using FormatSpecifier::m_parameter_type;                                                       \
                                                                                                    \
-    Formatter()                                                                                    \
+    constexpr Formatter()                                                                          \
     {                                                                                              \
         m_parameter_type = parameter_type;                                                         \
     }                                                                                              \
-- 
2.43.0


From 21fa26b63754c2c9c010160deec33c5b2cc1d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:54 +0000
Subject: [PATCH 25/31] fix: Compare signed and unsigned JSON integers by their
 values

---
 fly/types/json/json.cpp | 4 ++--
 fly/types/json/json.hpp | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index d19eee5..152ffcf 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -752,7 +752,7 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -794,7 +794,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..63990a7 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1370,8 +1370,8 @@ public:
      *    unsigned, or float) and have approximately the same value after converting both types to
      *    floating-point. Approximation is determined by comparing the difference between the two
      *    values to the machine epsilon.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value
-     *    after converting the second Json value to the same type as the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value,
+     *    regardless of their signedness.
      * 3. The two Json instances are of the same type and have the same value.
      *
      * @return True if the two Json instances are equal.
@@ -1393,9 +1393,8 @@ public:
      * 1. One of the two JSON types are floating-point, the other is a numeric type (signed,
      *    unsigned, or float) and the default less-than operator returns true after converting both
      *    types to floating-point.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the default
-     *    less-than operator returns true after converting the second Json value to the same type as
-     *    the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and the value of the first
+     *    is less than the value of the second, regardless of their signedness.
      * 3. The two Json instances are of the same type and the default less-than operator returns
      *    true.
      * 4. The two Json instances are of incompatible types and the type of the first Json instance
-- 
2.43.0


From 871423223927344851ecc5d319c08eaf0e6a410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 26/31] fix: Compare equal infinite JSON numbers as equal

---
 fly/types/json/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 152ffcf..5570655 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -748,7 +748,8 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
             auto const fvalue1 = static_cast<json_floating_point_type>(value1);
             auto const fvalue2 = static_cast<json_floating_point_type>(value2);
 
-            return std::abs(fvalue1 - fvalue2) <= epsilon;
+            // The difference between equal infinities is not a number.
+            return (fvalue1 == fvalue2) || (std::abs(fvalue1 - fvalue2) <= epsilon);
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-- 
2.43.0


From 93b164326d5f96eb81744a4b37d39e988c4c9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:15 +0000
Subject: [PATCH 27/31] fix: Do not publish an undefined CPU usage when no CPU
 time has passed

---
 fly/system/nix/system_monitor_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..de518d9 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,11 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        // No time may have passed on any CPU since the previous poll.
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From efcd59134274d25453f6c82f79bae34b21584cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:22 +0000
Subject: [PATCH 28/31] fix: Do not bit-shift by the size of the bit stream
 buffers when there is nothing to read or write

---
 fly/types/bit_stream/bit_stream_reader.hpp | 13 +++++++++----
 fly/types/bit_stream/bit_stream_writer.hpp | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 226780b..cdd2644 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -225,11 +225,16 @@ byte_type BitStreamReader::peek_bits(DataType &bits, byte_type size)
         lshift -= size;
     }
 
-    byte_type const rshift = m_position - peeked - size;
-    DataType const buffer = static_cast<DataType>(m_buffer >> rshift);
+    // If there is nothing (more) to peek, the bit-shifts below might be by the size of the value
+    // being shifted, which is undefined behavior.
+    if (size > 0)
+    {
+        byte_type const rshift = m_position - peeked - size;
+        DataType const buffer = static_cast<DataType>(m_buffer >> rshift);
 
-    bits |= (buffer & bit_mask<DataType>(size)) << lshift;
-    peeked += size;
+        bits |= (buffer & bit_mask<DataType>(size)) << lshift;
+        peeked += size;
+    }
 
     return peeked;
 }
diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 5e11a2e..3899cfd 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -121,10 +121,15 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         size = rshift;
     }
 
-    byte_type const lshift = m_position - size;
+    // If there is nothing to write, the byte buffer might be empty, in which case it is undefined
+    // behavior to bit-shift by the number of bits available.
+    if (size > 0)
+    {
+        byte_type const lshift = m_position - size;
 
-    m_buffer |= static_cast<buffer_type>(bits) << lshift;
-    m_position = lshift;
+        m_buffer |= static_cast<buffer_type>(bits) << lshift;
+        m_position = lshift;
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From deb6ac406667112ff45114076fcb1480162958ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:08 +0000
Subject: [PATCH 29/31] fix: Do not index the Base64 codes with negative
 characters

---
 fly/coders/base64/base64_coder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..8e1b7d4 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<unsigned char>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<unsigned char>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<unsigned char>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<unsigned char>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
-- 
2.43.0


From 3143a231060f2c54d052f6e654d745c58e4466dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:08 +0000
Subject: [PATCH 30/31] fix: Do not clear memory past the end of the Base64
 buffer

---
 fly/coders/base64/base64_coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 8e1b7d4..7ebbfe7 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
-- 
2.43.0


From 469d2dbcfdc04644384612b0dddd3e4b7e5dec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:08 +0000
Subject: [PATCH 31/31] fix: Accept padded Base64 input which exactly fills the
 decoder's buffer

---
 fly/coders/base64/base64_coder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 7ebbfe7..338b19e 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -167,6 +167,13 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
         encoded.read(m_encoded.data(), static_cast<std::streamsize>(m_encoded.size()));
         auto const bytes = static_cast<std::size_t>(encoded.gcount());
 
+        // If the buffer was filled exactly, check whether this was the last read from the encoded
+        // stream, in which case padding is allowed.
+        if (encoded)
+        {
+            encoded.peek();
+        }
+
         if ((bytes % s_encoded_chunk_size) != 0)
         {
             decoded.setstate(std::ios::failbit);
-- 
2.43.0

