From d8bc492a4f2664b7167850317cfe0cb5985b5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 01/38] fix: delta transform of an empty buffer must not touch
 memory

---
 src/hzip_core/preprocessor/delta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..a0dde5b 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,6 +6,8 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
+    if (length == 0) return;
+
     for (uint64_t i = length - 1; i > 0; i--) {
         data[i] -= data[i - 1];
     }
-- 
2.43.0


From 81c420a9bd1b39aa69f4f69cb61cf4f6a1bca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 02/38] fix: zig-zag traversal of an empty grid yields no cell

---
 src/hzip_core/preprocessor/zigzag.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..8cc36f9 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -112,6 +112,8 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            if (width == 0 || height == 0) return end();
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From 6e5ef82bcd4b53adbd7bc16081a4338b80f7d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 03/38] fix: stack is usable again after its last element was
 popped

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..0aa38b2 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = (buffer == nullptr) ? 0 : bufsize;
 
             rfree(tmp);
         }
-- 
2.43.0


From 3170e0adc43355e42ce33a14169146b052c97030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:03 +0000
Subject: [PATCH 04/38] fix: failed socket transfers raise a connection error

---
 src/hzip_network/api/handlers/socket_class.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..c10ef6b 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (send(_sock, buf, n, 0) != (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +28,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (recv(_sock, buf, n, MSG_WAITALL) != (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -52,11 +52,16 @@ void SocketInterface::error(const std::string &msg) const {
     // Error format: <CTLWORD (1B)> <msg len (8B)> <msg (?B)>
 
     uint8_t word = COMMON_CTL_ERROR;
-    send(_sock, &word, sizeof(word), 0);
+    if (send(_sock, &word, sizeof(word), 0) != (ssize_t) sizeof(word)) {
+        return;
+    }
 
     uint16_t len = msg.length();
 
-    send(_sock, &len, sizeof(len), 0);
+    if (send(_sock, &len, sizeof(len), 0) != (ssize_t) sizeof(len)) {
+        return;
+    }
+
     send(_sock, msg.c_str(), len, 0);
 }
 
-- 
2.43.0


From 738bc836ddfe74174e88417820dc306e3ecd8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 05/38] fix: unary encoder terminates

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From bd6f3249e0af6e92dcd11373958b534dd7602a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 06/38] fix: internal errors can be caught as std::exception

---
 src/hzip_core/errors/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/errors/utils.h b/src/hzip_core/errors/utils.h
index e46c2dc..8a76794 100644
--- a/src/hzip_core/errors/utils.h
+++ b/src/hzip_core/errors/utils.h
@@ -18,7 +18,7 @@ namespace UtilErrors {
         }
     };
 
-    class InternalError : std::exception {
+    class InternalError : public std::exception {
     public:
 
         InternalError(const std::string &msg) {
-- 
2.43.0


From cf5d643b4e3157b0a78a3da46e0bd6feec408b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 07/38] fix: cache page size and count are configurable without
 a cache file name

---
 src/hzip_core/runtime/config.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 9617296..2566378 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -30,23 +30,24 @@ void Config::configure() {
     const char *_processor_threads = std::getenv("HZIP_PROCESSOR_THREADS");
     const char *_host_max_memory = std::getenv("HZIP_MAX_MEM_USAGE");
 
-    if (_cache_file != nullptr) {
-        uint64_t page_size = 131072;
-        uint64_t cache_count = 4;
+    std::string cache_file = "hzip";
+    uint64_t page_size = 131072;
+    uint64_t cache_count = 4;
 
-        if (_cache_page_size != nullptr) {
-            page_size = std::stoull(_cache_page_size);
-        }
+    if (_cache_file != nullptr) {
+        cache_file = _cache_file;
+    }
 
-        if (_cache_count != nullptr) {
-            cache_count = std::stoull(_cache_count);
-        }
+    if (_cache_page_size != nullptr) {
+        page_size = std::stoull(_cache_page_size);
+    }
 
-        CacheProvider::init_cache(_cache_file, cache_count, page_size);
-    } else {
-        CacheProvider::init_cache("hzip", 4, 131072);
+    if (_cache_count != nullptr) {
+        cache_count = std::stoull(_cache_count);
     }
 
+    CacheProvider::init_cache(cache_file, cache_count, page_size);
+
     if (_api_threads != nullptr) {
         Config::api_threads = std::stoull(_api_threads);
     }
-- 
2.43.0


From 7d3a38d14aa1a1ab1f40d81f9de72da93f9fa676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:22 +0000
Subject: [PATCH 08/38] fix: a re-initialised cache pool starts at its first
 cache

---
 src/hzip_core/runtime/cache_provider.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 2e483b9..b464b3b 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -19,6 +19,7 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
     }
 
     _rainman_cache_count = count;
+    _rainman_cache_index = 0;
 }
 
 std::pair<rainman::cache&, std::mutex &> CacheProvider::get_cache() {
-- 
2.43.0


From 9eb9d4eaeface22ee1449685e7b8fb2a9e655f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 09/38] fix: program requests start at the first device after
 the device set changed

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index f631bd6..faf5055 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -157,6 +157,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 void ProgramProvider::set_device_count(uint64_t device_count) {
     std::scoped_lock<std::mutex> lock(_mutex);
     _device_count = device_count;
+    _device_index = 0;
 }
 
 std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &program_name) {
-- 
2.43.0


From b0a9e3d0102f7a63343bac7ddd8dd86b325041b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 10/38] fix: any failure to build an OpenCL program is reported

---
 src/hzip_core/opencl/cl_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index faf5055..01e2f9a 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -146,6 +146,8 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                     } else {
                         throw OpenCLErrors::InvalidOperationException(e.what());
                     }
+                } else {
+                    throw OpenCLErrors::InvalidOperationException(e.what());
                 }
             }
 
-- 
2.43.0


From fe60ed7f9de2f2c685a5549a0ede61d17d9d4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 11/38] fix: a program that failed to build on some device is
 not left half registered

---
 src/hzip_core/opencl/cl_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 01e2f9a..1fcc84c 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -127,6 +127,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 
     if (!_program_map.contains(program_name)) {
         auto devices = DeviceProvider::get_devices();
+        std::vector<cl::Program> programs;
 
         for (const auto &device : devices) {
             cl::Context context(device);
@@ -151,8 +152,10 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                 }
             }
 
-            _program_map[program_name].push_back(program);
+            programs.push_back(program);
         }
+
+        _program_map[program_name] = programs;
     }
 }
 
-- 
2.43.0


From 9ffd08223a29e82190c6b606a5e97ffbd05afb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 12/38] fix: colour transformer runs on the CPU when OpenCL is
 unavailable

---
 src/hzip_core/preprocessor/color.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index b36b336..bd26f1b 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -8,6 +8,7 @@ hztrans::LinearU16XColorTransformer::LinearU16XColorTransformer(
         uint8_t bit_depth
 ) : _width(width), _height(height), _bit_depth(bit_depth) {
     _mask = (1ull << _bit_depth) - 1;
+    _executor = hzruntime::CPU;
     if (hzruntime::Config::opencl_support_enabled) {
         if (_width * _height > 1000000) {
             _executor = hzruntime::OPENCL;
-- 
2.43.0


From 3c29448b0ff6d014597fcd2b5b6c99f812947662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:45 +0000
Subject: [PATCH 13/38] fix: JPEG header is captured before the decoder is
 destroyed

---
 src/hzip_core/preprocessor/jpeg_codec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index cf40153..f732739 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -218,11 +218,12 @@ public:
             }
         }
 
+        auto header = hzj_header(&info);
+
         jpeg_finish_decompress(&info);
         jpeg_destroy_decompress(&info);
 
-
-        return hzj_image_struct{hzj_header(&info), dct_coeffs};
+        return hzj_image_struct{header, dct_coeffs};
     }
 
     void write(hzj_image_struct image, FILE *out) {
-- 
2.43.0


From ec45fb95bafc2c127d995f083ffa51510722eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 14/38] fix: PNG reader overran its input and mishandled packed
 and 16-bit samples

---
 src/hzip_core/preprocessor/png_bundle.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2ee30eb..e861f12 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,6 +1,10 @@
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
+    if (size * n > buffer.size() - index) {
+        throw TransformErrors::InvalidInputError("png data is truncated");
+    }
+
     for (uint64_t i = 0; i < size * n; i++) {
         dst[i] = buffer[index++];
     }
@@ -85,6 +89,9 @@ PNGBundle PNGBundleBuilder::read_bundle() {
 
     int number_of_passes = png_set_interlace_handling(png_ptr);
 
+    // Deliver samples narrower than a byte as one byte each.
+    png_set_packing(png_ptr);
+
     png_read_update_info(png_ptr, info_ptr);
 
     uint64_t buffer_size = 0;
@@ -98,13 +105,20 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_read_image(png_ptr, row_pointers);
 
     auto pixar = rainman::ptr<uint16_t>(buffer_size);
-    uint64_t sz = height * width;
+    uint64_t sz = (uint64_t) height * width;
     uint64_t sy = width;
 
     for (uint64_t y = 0, ly = 0; y < height; y++, ly += sy) {
         for (uint64_t x = 0; x < width; x++) {
             for (uint64_t z = 0, lz = 0; z < nchannels; z++, lz += sz) {
-                pixar[lz + ly + x] = row_pointers[y][nchannels * x + z];
+                uint64_t index = (uint64_t) nchannels * x + z;
+
+                if (bit_depth == 16) {
+                    // 16-bit samples are stored in network byte order.
+                    pixar[lz + ly + x] = (row_pointers[y][index << 1] << 8) | row_pointers[y][(index << 1) + 1];
+                } else {
+                    pixar[lz + ly + x] = row_pointers[y][index];
+                }
             }
         }
     }
-- 
2.43.0


From 49ce589715990a31abed83c6ad21e82299df2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 15/38] fix: path index mishandled the root and left empty
 directories behind after erasing one

---
 src/hzip_storage/archive/archive_trie.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1b9e16e..6db36d0 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -75,6 +75,11 @@ public:
             throw ArchiveErrors::InvalidOperationException("The given path is a directory");
         }
 
+        // An empty root is neither a directory with entries nor a file.
+        if (!is_leaf_node(curr)) {
+            throw ArchiveErrors::TargetNotFoundException(path);
+        }
+
         return curr->value;
     }
 
@@ -149,16 +154,26 @@ public:
             }
         }
 
+        // The root has no parent to be detached from, it is only emptied.
+        if (curr == root) {
+            for (auto entry : root->children) {
+                erase_node(entry.second);
+            }
+
+            root->children.clear();
+            root->value = Type{};
+            root->is_leaf = false;
+            return;
+        }
+
+        // Remove the ancestors which are left without any other entry as well.
         HZ_ArchiveTrieNode<Type> *descendant = curr;
+        curr = curr->parent;
         while (curr->children.size() < 2 && curr->parent != nullptr) {
             descendant = curr;
             curr = curr->parent;
         }
 
-        if (curr == descendant) {
-            curr = curr->parent;
-        }
-
         curr->children.erase(descendant->key);
 
         erase_node(descendant);
-- 
2.43.0


From 96cbf0454876887cba07aac5dd6a4d0d5d716c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 16/38] fix: archive and archive provider stayed locked when an
 operation failed

---
 .../api/providers/archive_provider.cpp        |  8 +-
 src/hzip_storage/archive/archive.cpp          | 89 +++++--------------
 src/hzip_storage/archive/archive.h            |  1 +
 3 files changed, 24 insertions(+), 74 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..2e95632 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,7 +1,7 @@
 #include "archive_provider.h"
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     rainman::ptr<HZ_Archive> archive;
     if (arch_map.contains(path)) {
         archive = arch_map[path];
@@ -12,17 +12,13 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
         arch_map[path] = archive;
     }
 
-    mutex.unlock();
-
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
-
-    mutex.unlock();
 }
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..97d449a 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -46,7 +46,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -89,8 +89,6 @@ void HZ_Archive::hza_scan() {
                 break;
         }
     }
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -242,7 +240,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     stream->seek_to(0);
 
@@ -258,15 +256,12 @@ void HZ_Archive::hza_init() {
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     // Evaluate length of entry to utilize fragmented-space.
 
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
@@ -319,12 +314,10 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
     for (int i = 0; i < file.blob_ids.size(); i++) {
         stream->write(file.blob_ids[i], 0x40);
     }
-
 }
 
 HZ_ArchiveFile HZ_Archive::hza_read_metadata_file_entry(const std::string &file_path) {
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -335,7 +328,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     auto blob = rainman::ptr<HZ_Blob>();
 
     if (!metadata.blob_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -377,7 +369,6 @@ uint64_t HZ_Archive::hza_write_blob(const HZ_Blob &blob) {
     // <mstate-id (64-bit)> <blob-data <size (64-bit)> <data (8-bit arr)>>
 
     if (!metadata.mstate_map.contains(blob.mstate_id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(blob.mstate_id);
     }
 
@@ -459,15 +450,12 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
         // erase entry from blob map
         metadata.blob_map.erase(id);
     } else {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
-
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::hza_read_mstate(uint64_t id) {
     if (!metadata.mstate_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(id);
     }
 
@@ -538,9 +526,8 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
@@ -588,14 +575,11 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // Write mstate-id.
     stream->write(id, 0x40);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_rm_mstate(uint64_t id) {
     if (metadata.mstate_map.contains(id)) {
         if (hza_check_mstate_deps(id)) {
-            mutex.unlock();
             throw ArchiveErrors::InvalidOperationException("mstate dependency detected");
         }
 
@@ -613,7 +597,6 @@ void HZ_Archive::hza_rm_mstate(uint64_t id) {
     } else {
         LOG_F(INFO, "hzip_core.archive: mstate(0x%lx) was not found, operation ignored", id);
     }
-
 }
 
 bool HZ_Archive::hza_check_mstate_deps(uint64_t id) const {
@@ -645,9 +628,8 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
@@ -659,16 +641,13 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     }
 
     hza_create_metadata_file_entry(file_path, file);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -690,16 +669,13 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     }
 
     hza_metadata_erase_file(file_path);
-
-    mutex.unlock();
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -712,17 +688,14 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
         blobs[i] = *blob;
     }
 
-    mutex.unlock();
-
     return blobs;
 }
 
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
@@ -743,57 +716,47 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
     metadata.mstate_aux_map.erase(_path);
     metadata.mstate_inv_aux_map.erase(id);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
     blob->mstate_id = metadata.mstate_aux_map.get(_path).data;
 
     blob->mstate = hza_read_mstate(blob->mstate_id);
-
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     uint64_t id = hza_write_mstate(mstate);
-    mutex.unlock();
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     hza_rm_mstate(id);
-    mutex.unlock();
 }
 
 void HZ_Archive::close() {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
 
     stream->seek_to(metadata.eof);
     stream->write(HZ_ArchiveMarker::END, 0x8);
     stream->flush();
 
-    mutex.unlock();
     sem_post(archive_mutex.pointer());
 }
 
@@ -802,61 +765,53 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     hza_create_metadata_file_entry(file_path, file);
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     uint64_t id = hza_write_blob(*blob);
-    mutex.unlock();
 
     return id;
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     bool v = metadata.file_map.contains(file_path);
-    mutex.unlock();
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
-    mutex.unlock();
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     auto blob = hza_read_blob(id);
-    mutex.unlock();
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
 
     auto id = metadata.mstate_aux_map.get(_path).data;
     auto mstate = hza_read_mstate(id);
-    mutex.unlock();
 
     return mstate;
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     bool exists = metadata.mstate_aux_map.contains(_path);
-    mutex.unlock();
 
     return exists;
 }
@@ -869,17 +824,15 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     auto list = metadata.file_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    mutex.lock();
+    std::lock_guard<std::mutex> guard(mutex);
     auto list = metadata.mstate_aux_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index d31142a..775cead 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <functional>
+#include <mutex>
 #include <unordered_map>
 #include <semaphore.h>
 #include <bitio/bitio.h>
-- 
2.43.0


From a67bb82649f12e9cc53444053156d280111cc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 17/38] fix: model state dependencies were forgotten when an
 archive was reopened

---
 src/hzip_storage/archive/archive.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 97d449a..a739f9f 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -146,7 +146,10 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
     }
@@ -161,10 +164,16 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
 
     uint64_t blob_id = read(0x40);
 
+    // Read the mstate-id to restore the dependency.
+    uint64_t header_length = read(0x40);
+    seek((header_length << 3) + 0x40);
+    uint64_t mstate_id = read(0x40);
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - 0x100 - (header_length << 3));
 
     metadata.blob_map[blob_id] = sof;
+    hza_increment_dep(mstate_id);
 }
 
 void
-- 
2.43.0


From 73c827164bf86094f78ec633bb93aacb13ea60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:31 +0000
Subject: [PATCH 18/38] fix: compression status of a blob was lost when it was
 read from an archive

---
 src/hzip_storage/archive/archive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index a739f9f..fe24eee 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -367,6 +367,9 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
         blob->data[i] = stream->read(0x8);
     }
 
+    // A blob is only kept compressed when it is smaller than the original data.
+    blob->status = blob->size < blob->o_size;
+
     blob->mstate = hza_read_mstate(blob->mstate_id);
 
     return blob;
-- 
2.43.0


From 8b54825ec29e010d5fa1bd8e439d08ad780a19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:32 +0000
Subject: [PATCH 19/38] fix: rejected archive insertions left unreachable
 blocks or a gap behind

---
 src/hzip_storage/archive/archive.cpp    | 13 ++++++++++++
 src/hzip_storage/archive/archive_trie.h | 28 +++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index fe24eee..b0709b9 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -274,6 +274,8 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
+    metadata.file_map.check_insertion(file_path);
+
     uint64_t length = 0;
 
     uint64_t path_length = file_path.length();
@@ -543,6 +545,8 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
+    metadata.mstate_aux_map.check_insertion(_path);
+
     uint64_t id = hza_write_mstate(mstate);
 
     // Create auxillary mstate-entry.
@@ -645,6 +649,15 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
+    // Nothing must be written unless the whole file can be created.
+    metadata.file_map.check_insertion(file_path);
+
+    for (uint64_t i = 0; i < blob_count; i++) {
+        if (!metadata.mstate_map.contains(blobs[i].mstate_id)) {
+            throw ArchiveErrors::MstateNotFoundException(blobs[i].mstate_id);
+        }
+    }
+
     HZ_ArchiveFile file{};
     file.blob_ids = rainman::ptr<uint64_t>(blob_count);
 
diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 6db36d0..3e515a9 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -115,6 +115,34 @@ public:
         curr->is_leaf = true;
     }
 
+    // Throws the error which set() would throw for the given path.
+    void check_insertion(const std::string &path) {
+        std::stringstream ss(path);
+
+        std::string token;
+
+        HZ_ArchiveTrieNode<Type> *curr = root;
+        while (std::getline(ss, token, '/')) {
+            if (token.empty()) {
+                continue;
+            }
+
+            if (!curr->children.contains(token)) {
+                if (is_leaf_node(curr)) {
+                    throw ArchiveErrors::InvalidOperationException("A file exists in the path prefix");
+                }
+
+                return;
+            }
+
+            curr = curr->children[token];
+        }
+
+        if (is_dir_node(curr)) {
+            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
+        }
+    }
+
     bool contains(const std::string &prefix) {
         std::stringstream ss(prefix);
 
-- 
2.43.0


From da14c3748eaac686b9f2c5eea54461fa4faec1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:40 +0000
Subject: [PATCH 20/38] fix: failing to open an archive crashed or left it
 locked

---
 src/hzip_core/utils/fsutils.h        | 6 +++++-
 src/hzip_storage/archive/archive.cpp | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/utils/fsutils.h b/src/hzip_core/utils/fsutils.h
index 9c9130c..f6d3d81 100755
--- a/src/hzip_core/utils/fsutils.h
+++ b/src/hzip_core/utils/fsutils.h
@@ -7,7 +7,11 @@
 
 namespace fsutils {
     HZ_INLINE void create_empty_file(const std::string &path) {
-        fclose(fopen(path.c_str(), "wb"));
+        FILE *fp = fopen(path.c_str(), "wb");
+
+        if (fp != nullptr) {
+            fclose(fp);
+        }
     }
 
     HZ_INLINE bool check_if_file_exists(const std::string& filename) {
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index b0709b9..a48e673 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -786,7 +786,13 @@ void HZ_Archive::close() {
 }
 
 void HZ_Archive::load() {
-    hza_scan();
+    try {
+        hza_scan();
+    } catch (...) {
+        // Unlock archive, it was not opened.
+        sem_post(archive_mutex.pointer());
+        throw;
+    }
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-- 
2.43.0


From fb69c3e5522bb9d7c11389a3e00aba12f5990462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:17 +0000
Subject: [PATCH 21/38] fix: archive opened twice when its path was spelled
 differently

---
 src/hzip_network/api/providers/archive_provider.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 2e95632..af6507d 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,6 +1,10 @@
 #include "archive_provider.h"
+#include <filesystem>
+
+rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &_path) {
+    // Different spellings of a path must not open the archive twice.
+    std::string path = std::filesystem::absolute(_path).lexically_normal();
 
-rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
     std::lock_guard<std::mutex> guard(mutex);
     rainman::ptr<HZ_Archive> archive;
     if (arch_map.contains(path)) {
-- 
2.43.0


From a07988f364e9c5c027da385f7a92fea85081e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 22/38] fix: connections whose timeouts cannot be set were
 never closed

---
 src/hzip_network/api/api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..0a2c92d 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -136,11 +136,13 @@ Api *Api::process(uint64_t _n_threads) {
         if (time_out.tv_sec > 0) {
             if (setsockopt(client_sock, SOL_SOCKET, SO_RCVTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
 
             if (setsockopt(client_sock, SOL_SOCKET, SO_SNDTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
         }
-- 
2.43.0


From 7c80cf1cfdb5c87f92f771cbf3db956884e3904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 23/38] fix: a failing callback ended the worker or kept its
 slot

---
 src/hzip_codec/processor/processor.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..33a6e0e 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -1,6 +1,7 @@
 #include "processor.h"
 #include <hzip_codec/errors/processor.h>
 #include <hzip_codec/codec_provider.h>
+#include <loguru/loguru.hpp>
 
 #define HZP_STUB_CALL(f, ...) if (f != nullptr) f(__VA_ARGS__)
 
@@ -17,14 +18,32 @@ void HZ_Processor::run(const rainman::ptr<HZ_Job> &job) {
         std::thread([this](const rainman::ptr<HZ_Job> &job) {
             _semaphore.acquire();
 
+            bool failed = false;
+            std::string reason;
+
             try {
                 hzp_run_codec_job(job->codec);
-                HZP_STUB_CALL(job->stub->on_success, "Operation completed successfully");
             } catch (std::exception &e) {
-                HZP_STUB_CALL(job->stub->on_error, e.what());
+                failed = true;
+                reason = e.what();
+            }
+
+            // A failing callback must not end the worker or keep its slot.
+            try {
+                if (failed) {
+                    HZP_STUB_CALL(job->stub->on_error, reason);
+                } else {
+                    HZP_STUB_CALL(job->stub->on_success, "Operation completed successfully");
+                }
+            } catch (std::exception &e) {
+                LOG_F(ERROR, "hzip_codec.processor: callback failed with error: %s", e.what());
             }
 
-            HZP_STUB_CALL(job->stub->on_completed);
+            try {
+                HZP_STUB_CALL(job->stub->on_completed);
+            } catch (std::exception &e) {
+                LOG_F(ERROR, "hzip_codec.processor: callback failed with error: %s", e.what());
+            }
 
             _semaphore.release();
 
-- 
2.43.0


From b02e8f0ab5c7d2ed3672e1154f1da070c336aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:19 +0000
Subject: [PATCH 24/38] fix: data stored with an installed model state it was
 not compressed with could not be decoded

---
 src/hzip_codec/processor/processor.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 33a6e0e..f97636d 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -69,12 +69,16 @@ void HZ_Processor::hzp_run_codec_job(const rainman::ptr<HZ_CodecJob> &job) {
 }
 
 void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
+    // An empty model state is replaced by the codec.
+    bool replaced_mstate = true;
+
     if (job->mstate_addr.is_some()) {
         if (job->archive.is_none()) {
             throw ProcessorErrors::InvalidOperationError("Archive is required for mstate-injection by address");
         }
 
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+        replaced_mstate = job->blob->mstate->is_empty();
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -86,13 +90,14 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        if (job->mstate_addr.is_none()) {
-            if (job->archive.is_some()) {
+        if (job->archive.is_some()) {
+            // Only data that was compressed with an installed mstate may refer to it.
+            if (replaced_mstate || !blob->status) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
-            } else if (job->blob_callback == nullptr) {
-                throw ProcessorErrors::InvalidOperationError(
-                        "Piggy-back is disabled, null job execution is not allowed");
             }
+        } else if (job->blob_callback == nullptr) {
+            throw ProcessorErrors::InvalidOperationError(
+                    "Piggy-back is disabled, null job execution is not allowed");
         }
 
         if (job->archive.is_some()) {
-- 
2.43.0


From 6662ea568ddab6bd1983490dbebea3aca96ccf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:20 +0000
Subject: [PATCH 25/38] fix: a failing training job removed the installed model
 state

---
 src/hzip_codec/processor/processor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index f97636d..f1d8753 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -143,9 +143,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
         throw ProcessorErrors::InvalidOperationError("Archive not found");
     }
 
-    if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+    bool installed = job->archive.inner()->check_mstate_exists(job->mstate_addr.inner());
+
+    if (installed) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -155,6 +156,11 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        // The previous mstate is replaced only after training was successful.
+        if (installed) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From 36408b2d22b70b31f9b2448199028bb09d50405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 26/38] fix: streamer locked a mutex in one thread and unlocked
 it in another

---
 src/hzip_network/api/handlers/streamer.cpp | 47 +++++++++++-----------
 src/hzip_network/api/handlers/streamer.h   |  3 +-
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 718ad51..1fe2476 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -22,6 +22,7 @@ Streamer::Streamer(
         const rainman::ptr<hzapi::ArchiveProvider> &archive_provider
 ) : SocketInterface(sock, ip_addr, port) {
     _processor = processor;
+    _slot = rainman::ptr<Semaphore>(1, 1);
     _archive_provider = archive_provider;
 }
 
@@ -70,7 +71,7 @@ void Streamer::encode() {
                 HZ_RECV_SYNC;
 
                 while (data_len > 0) {
-                    _mutex->lock();
+                    _slot->acquire();
 
                     // Avoid processor overload.
                     _processor->cycle();
@@ -127,8 +128,8 @@ void Streamer::encode() {
 
 
                     auto stub = rainman::ptr<HZ_JobStub>();
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
+                    stub->on_completed = [slot = _slot]() {
+                        slot->release();
                     };
 
                     stub->on_error = [this](const std::string &msg) {
@@ -142,12 +143,12 @@ void Streamer::encode() {
                     _processor->run(job);
                     data_len -= max_blob_size;
 
-                    _mutex->lock();
-                    _mutex->unlock();
+                    _slot->acquire();
+                    _slot->release();
                 }
 
 
-                _mutex->lock();
+                _slot->acquire();
 
                 if (archive.is_some() && dest.is_some()) {
                     auto blob_id_arr = rainman::ptr<uint64_t>(blob_ids.size());
@@ -161,7 +162,7 @@ void Streamer::encode() {
                     archive.inner()->create_file_entry(dest.inner().pointer(), file);
                 }
 
-                _mutex->unlock();
+                _slot->release();
 
                 success("Operation completed successfully");
 
@@ -228,7 +229,7 @@ void Streamer::encode() {
                 uint64_t batch_count = 0;
 
                 while (data_len > 0) {
-                    _mutex->lock();
+                    _slot->acquire();
                     HZAPI_LOGF(INFO, "[%s] Training [%s] batch: %lu", hzcodec::CodecProvider::algorithm_to_str(
                             static_cast<hzcodec::algorithms::ALGORITHM>(algorithm)), mstate_addr.inner().pointer(),
                                ++batch_count);
@@ -260,8 +261,8 @@ void Streamer::encode() {
                     codec->job_type = HZ_CodecJob::TRAIN;
 
 
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
+                    stub->on_completed = [slot = _slot]() {
+                        slot->release();
                     };
 
                     stub->on_error = [this](const std::string &msg) {
@@ -276,8 +277,8 @@ void Streamer::encode() {
 
                     data_len -= max_blob_size;
 
-                    _mutex->lock();
-                    _mutex->unlock();
+                    _slot->acquire();
+                    _slot->release();
                 }
 
                 success("Operation completed successfully");
@@ -331,7 +332,7 @@ void Streamer::decode() {
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
                 for (uint64_t i = 0; i < blob_count; i++) {
-                    _mutex->lock();
+                    _slot->acquire();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
 
                     // Construct hz_job
@@ -350,8 +351,8 @@ void Streamer::decode() {
                         HZ_SEND(dblob->data.pointer(), dblob->o_size);
                     };
 
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
+                    stub->on_completed = [slot = _slot]() {
+                        slot->release();
                     };
 
                     stub->on_error = [this](const std::string &msg) {
@@ -369,9 +370,9 @@ void Streamer::decode() {
                     _processor->cycle();
                     _processor->run(job);
 
-                    // Cycle the mutex
-                    _mutex->lock();
-                    _mutex->unlock();
+                    // Cycle the slot
+                    _slot->acquire();
+                    _slot->release();
                 }
 
                 success("Operation completed successfully");
@@ -430,7 +431,7 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _mutex->lock();
+                _slot->acquire();
                 _processor->cycle();
 
                 if (!piggy_back) {
@@ -477,8 +478,8 @@ void Streamer::decode() {
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
 
-                job->stub->on_completed = [this]() {
-                    _mutex->unlock();
+                job->stub->on_completed = [slot = _slot]() {
+                    slot->release();
                 };
 
                 job->stub->on_error = [this](const std::string &msg) {
@@ -487,8 +488,8 @@ void Streamer::decode() {
 
                 _processor->run(job);
 
-                _mutex->lock();
-                _mutex->unlock();
+                _slot->acquire();
+                _slot->release();
 
                 success("Operation completed successfully");
                 return;
diff --git a/src/hzip_network/api/handlers/streamer.h b/src/hzip_network/api/handlers/streamer.h
index 3190376..c642076 100644
--- a/src/hzip_network/api/handlers/streamer.h
+++ b/src/hzip_network/api/handlers/streamer.h
@@ -5,6 +5,7 @@
 #include <hzip_codec/compressor_enums.h>
 #include <hzip_codec/compressors.h>
 #include <hzip_codec/processor/processor.h>
+#include <hzip_core/utils/semaphore.h>
 #include <hzip_network/api/providers/archive_provider.h>
 #include "socket_class.h"
 
@@ -13,7 +14,7 @@ namespace hzapi {
     class Streamer : public SocketInterface {
     private:
         rainman::ptr<HZ_Processor> _processor;
-        rainman::ptr<std::mutex> _mutex;
+        rainman::ptr<Semaphore> _slot;
         rainman::ptr<hzapi::ArchiveProvider> _archive_provider;
 
         static uint64_t hzes_b_size(hzcodec::algorithms::ALGORITHM alg);
-- 
2.43.0


From 6a957788bbda1b7240f124e598ba6e2326621015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:03 +0000
Subject: [PATCH 27/38] fix: decoding a streamed blob ran an empty job

---
 src/hzip_network/api/handlers/streamer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 1fe2476..a8ea2ec 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -431,9 +431,6 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _slot->acquire();
-                _processor->cycle();
-
                 if (!piggy_back) {
                     throw ApiErrors::InvalidOperationError("Piggy-back was disabled");
                 }
@@ -455,6 +452,8 @@ void Streamer::decode() {
 
                 HZ_RECV(&blob->o_size, sizeof(blob->o_size));
 
+                blob->status = blob->size < blob->o_size;
+
                 if (mstate.is_some()) {
                     blob->mstate = mstate.inner();
                 }
@@ -467,7 +466,7 @@ void Streamer::decode() {
                     codec->mstate_addr = std::string(mstate_addr.inner().pointer());
                 }
                 codec->archive = archive;
-
+                codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
 
                 codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &dblob) {
                     HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
@@ -478,14 +477,19 @@ void Streamer::decode() {
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
 
-                job->stub->on_completed = [slot = _slot]() {
+                stub->on_completed = [slot = _slot]() {
                     slot->release();
                 };
 
-                job->stub->on_error = [this](const std::string &msg) {
+                stub->on_error = [this](const std::string &msg) {
                     error(msg);
                 };
 
+                job->codec = codec;
+                job->stub = stub;
+
+                _slot->acquire();
+                _processor->cycle();
                 _processor->run(job);
 
                 _slot->acquire();
-- 
2.43.0


From 18afbea4775f8ea1d0673db13b91b137cbc7a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:16 +0000
Subject: [PATCH 28/38] fix: a failed streaming job was reported as success and
 stored an incomplete file

---
 src/hzip_network/api/handlers/streamer.cpp | 38 +++++++++++++++++-----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index a8ea2ec..f3f41cf 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -66,6 +66,7 @@ void Streamer::encode() {
                 HZ_RECV(&data_len, sizeof(data_len));
 
                 std::vector<uint64_t> blob_ids;
+                bool failed = false;
 
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
@@ -132,7 +133,8 @@ void Streamer::encode() {
                         slot->release();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -147,8 +149,10 @@ void Streamer::encode() {
                     _slot->release();
                 }
 
-
-                _slot->acquire();
+                // The errors were already reported, the data is incomplete.
+                if (failed) {
+                    return;
+                }
 
                 if (archive.is_some() && dest.is_some()) {
                     auto blob_id_arr = rainman::ptr<uint64_t>(blob_ids.size());
@@ -162,8 +166,6 @@ void Streamer::encode() {
                     archive.inner()->create_file_entry(dest.inner().pointer(), file);
                 }
 
-                _slot->release();
-
                 success("Operation completed successfully");
 
                 return;
@@ -227,6 +229,7 @@ void Streamer::encode() {
                 HZ_RECV_SYNC;
 
                 uint64_t batch_count = 0;
+                bool failed = false;
 
                 while (data_len > 0) {
                     _slot->acquire();
@@ -265,7 +268,8 @@ void Streamer::encode() {
                         slot->release();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -281,6 +285,10 @@ void Streamer::encode() {
                     _slot->release();
                 }
 
+                if (failed) {
+                    return;
+                }
+
                 success("Operation completed successfully");
                 return;
             }
@@ -331,6 +339,8 @@ void Streamer::decode() {
 
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
+                bool failed = false;
+
                 for (uint64_t i = 0; i < blob_count; i++) {
                     _slot->acquire();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
@@ -355,7 +365,8 @@ void Streamer::decode() {
                         slot->release();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
+                    stub->on_error = [this, &failed](const std::string &msg) {
+                        failed = true;
                         error(msg);
                     };
 
@@ -375,6 +386,10 @@ void Streamer::decode() {
                     _slot->release();
                 }
 
+                if (failed) {
+                    return;
+                }
+
                 success("Operation completed successfully");
 
                 return;
@@ -458,6 +473,8 @@ void Streamer::decode() {
                     blob->mstate = mstate.inner();
                 }
 
+                bool failed = false;
+
                 auto job = rainman::ptr<HZ_Job>();
                 auto codec = rainman::ptr<HZ_CodecJob>();
                 auto stub = rainman::ptr<HZ_JobStub>();
@@ -481,7 +498,8 @@ void Streamer::decode() {
                     slot->release();
                 };
 
-                stub->on_error = [this](const std::string &msg) {
+                stub->on_error = [this, &failed](const std::string &msg) {
+                    failed = true;
                     error(msg);
                 };
 
@@ -495,6 +513,10 @@ void Streamer::decode() {
                 _slot->acquire();
                 _slot->release();
 
+                if (failed) {
+                    return;
+                }
+
                 success("Operation completed successfully");
                 return;
             }
-- 
2.43.0


From b52ff2ab537682ef81667818ee7215d6f9ecd617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:16 +0000
Subject: [PATCH 29/38] fix: unknown algorithms were rejected in the middle of
 the data stream

---
 src/hzip_network/api/handlers/streamer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index f3f41cf..36e03bb 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -51,6 +51,9 @@ void Streamer::encode() {
                     throw ApiErrors::InvalidOperationError("No algorithm was provided");
                 }
 
+                // Reject unknown algorithms before the data is streamed.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 if (archive.is_some() && dest.is_some()) {
                     if (archive.inner()->check_file_exists(dest.inner().pointer())) {
                         throw ApiErrors::InvalidOperationError("File already exists");
@@ -213,6 +216,9 @@ void Streamer::encode() {
                     throw ApiErrors::InvalidOperationError("No algorithm was provided");
                 }
 
+                // Reject unknown algorithms before the data is streamed.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 if (mstate_addr.is_none()) {
                     throw ApiErrors::InvalidOperationError("Mstate address not found");
                 }
-- 
2.43.0


From 67cea14ce8c7e8d8559eab4be642f84d816da191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:25 +0000
Subject: [PATCH 30/38] fix: streaming to a path that cannot be created stored
 unreachable data

---
 src/hzip_network/api/handlers/streamer.cpp | 3 +++
 src/hzip_storage/archive/archive.cpp       | 5 +++++
 src/hzip_storage/archive/archive.h         | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 36e03bb..490ff64 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -58,6 +58,9 @@ void Streamer::encode() {
                     if (archive.inner()->check_file_exists(dest.inner().pointer())) {
                         throw ApiErrors::InvalidOperationError("File already exists");
                     }
+
+                    // Nothing must be stored when the file cannot be created.
+                    archive.inner()->check_file_insertion(dest.inner().pointer());
                 }
 
                 if (!piggy_back && dest.is_none()) {
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index a48e673..a190735 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -814,6 +814,11 @@ bool HZ_Archive::check_file_exists(const std::string &file_path) {
     return v;
 }
 
+void HZ_Archive::check_file_insertion(const std::string &file_path) {
+    std::lock_guard<std::mutex> guard(mutex);
+    metadata.file_map.check_insertion(file_path);
+}
+
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
     std::lock_guard<std::mutex> guard(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index 775cead..2c0f712 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -138,6 +138,9 @@ public:
 
     bool check_file_exists(const std::string &file_path);
 
+    // Throws an error if a file cannot be created at the given path.
+    void check_file_insertion(const std::string &file_path);
+
     uint64_t write_blob(const rainman::ptr<HZ_Blob> &blob);
 
     rainman::ptr<HZ_Blob> read_blob(uint64_t id);
-- 
2.43.0


From 318089a3334db56fc4747c2f1ad8c6a9277b1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:15 +0000
Subject: [PATCH 31/38] fix: streaming to a destination without an archive was
 accepted and stored nothing

---
 src/hzip_network/api/handlers/streamer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 490ff64..e64dd85 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -54,6 +54,10 @@ void Streamer::encode() {
                 // Reject unknown algorithms before the data is streamed.
                 hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
 
+                if (archive.is_none() && (dest.is_some() || mstate_addr.is_some())) {
+                    throw ApiErrors::InvalidOperationError("Archive not provided");
+                }
+
                 if (archive.is_some() && dest.is_some()) {
                     if (archive.inner()->check_file_exists(dest.inner().pointer())) {
                         throw ApiErrors::InvalidOperationError("File already exists");
-- 
2.43.0


From 6726d98e77c5ff2f1e78ff13db86fc2c8de9ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 32/38] fix: data encoded with a model state of another
 algorithm could not be decoded

---
 src/hzip_codec/processor/processor.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index f1d8753..cccd369 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -79,6 +79,12 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
         replaced_mstate = job->blob->mstate->is_empty();
+
+        // The algorithm of the mstate selects the codec when the blob is decoded.
+        if (!replaced_mstate && job->algorithm != hzcodec::algorithms::UNCOMPRESSED
+            && job->blob->mstate->alg != job->algorithm) {
+            throw ProcessorErrors::InvalidOperationError("Mstate belongs to another algorithm");
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -122,6 +128,10 @@ void HZ_Processor::hzp_decode(const rainman::ptr<HZ_CodecJob> &job) {
         }
 
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+
+        if (job->blob->mstate->alg != job->algorithm) {
+            throw ProcessorErrors::InvalidOperationError("Mstate belongs to another algorithm");
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -147,6 +157,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
 
     if (installed) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+
+        if (!job->blob->mstate->is_empty() && job->blob->mstate->alg != job->algorithm) {
+            throw ProcessorErrors::InvalidOperationError("Mstate belongs to another algorithm");
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
-- 
2.43.0


From ac4cfd642c8c43b3906566341f9db34c49e0a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:50 +0000
Subject: [PATCH 33/38] fix: uncompressed data with a wrong size was read past
 its end

---
 src/hzip_codec/uncompressed/uncompressed.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_codec/uncompressed/uncompressed.cpp b/src/hzip_codec/uncompressed/uncompressed.cpp
index 08703b0..07d636e 100644
--- a/src/hzip_codec/uncompressed/uncompressed.cpp
+++ b/src/hzip_codec/uncompressed/uncompressed.cpp
@@ -18,6 +18,10 @@ rainman::ptr<HZ_Blob> hzcodec::Uncompressed::compress(const rainman::ptr<HZ_Blob
 }
 
 rainman::ptr<HZ_Blob> hzcodec::Uncompressed::decompress(const rainman::ptr<HZ_Blob> &blob) {
+    if (blob->size != blob->o_size) {
+        throw CodecErrors::InvalidOperationException("Invalid size of uncompressed data");
+    }
+
     auto dblob = rainman::ptr<HZ_Blob>();
     auto mstate = blob->mstate;
 
-- 
2.43.0


From 5f8811e2e79509c9c6c8d98b03e9bc8467f5d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:16 +0000
Subject: [PATCH 34/38] fix: invalid algorithms of model states and 64-bit
 algorithm numbers were accepted

---
 src/hzip_network/api/handlers/streamer.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index e64dd85..3ea37b3 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -14,6 +14,15 @@ uint64_t Streamer::hzes_b_size(hzcodec::algorithms::ALGORITHM alg) {
     return hzcodec::CodecProvider::algorithm_to_bsize(alg);
 }
 
+// Algorithms are received as 64-bit integers, only those of the known codecs are valid.
+static void hzes_check_algorithm(uint64_t algorithm) {
+    if ((uint64_t) (uint32_t) algorithm != algorithm) {
+        throw ApiErrors::InvalidOperationError("Invalid algorithm");
+    }
+
+    hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+}
+
 Streamer::Streamer(
         int sock,
         const std::string &ip_addr,
@@ -52,7 +61,7 @@ void Streamer::encode() {
                 }
 
                 // Reject unknown algorithms before the data is streamed.
-                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+                hzes_check_algorithm(algorithm);
 
                 if (archive.is_none() && (dest.is_some() || mstate_addr.is_some())) {
                     throw ApiErrors::InvalidOperationError("Archive not provided");
@@ -224,7 +233,7 @@ void Streamer::encode() {
                 }
 
                 // Reject unknown algorithms before the data is streamed.
-                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+                hzes_check_algorithm(algorithm);
 
                 if (mstate_addr.is_none()) {
                     throw ApiErrors::InvalidOperationError("Mstate address not found");
@@ -467,6 +476,8 @@ void Streamer::decode() {
                     throw ApiErrors::InvalidOperationError("Mstate was not provided");
                 }
 
+                hzes_check_algorithm(algorithm);
+
                 blob = rainman::ptr<HZ_Blob>();
                 uint64_t header_len = 0;
 
@@ -619,6 +630,8 @@ void Streamer::write_mstate() {
                 auto mstate_data = rainman::ptr<uint8_t>(mstate_data_len);
                 HZ_RECV(mstate_data.pointer(), mstate_data_len);
 
+                hzes_check_algorithm(mstate_algorithm);
+
                 auto mstate = rainman::ptr<HZ_MState>();
                 mstate->data = mstate_data;
                 mstate->alg = (hzcodec::algorithms::ALGORITHM) mstate_algorithm;
-- 
2.43.0


From 900acfd3803d9938ec5019053095e25718785838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:56 +0000
Subject: [PATCH 35/38] fix: place the residue intervals of the dynamic image
 model in the residue segment, from the samples they describe

---
 src/hzip_codec/sharingan/state_transition.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 3c20615..dfee4ab 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -290,11 +290,11 @@ SharinganStateTransition::cpu_dynamic_precode() {
 
     if (shift != 0) {
         for (uint64_t channel_index = 0; channel_index < _nchannels; channel_index++) {
-            uint64_t channel_offset = residue_segment_offset + channel_index * per_channel_offset;
+            uint64_t channel_offset = channel_index * per_channel_offset;
 
             for (uint64_t y_chunk_index = 0; y_chunk_index < y_chunks; y_chunk_index++) {
                 uint64_t y_chunk_partial_offset = y_chunk_index * _chunk_height;
-                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset;
+                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset * _width;
                 uint64_t chunk_h = y_chunk_partial_offset + _chunk_height > _height ? y_residue : _chunk_height;
 
                 for (uint64_t x_chunk_index = 0; x_chunk_index < x_chunks; x_chunk_index++) {
@@ -315,7 +315,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                             uint64_t residual_symbol = _data[index] & 0xff;
 
                             if (x == 0 && y == 0) {
-                                array.set(uniform_pair(residual_symbol), index);
+                                array.set(uniform_pair(residual_symbol), residue_segment_offset + index);
                             } else {
                                 state.ftable = ls_arr;
 
@@ -325,7 +325,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                                 array.set(SSTPair{
                                         .ls=static_cast<uint32_t>(state.ls),
                                         .bs=static_cast<uint32_t>(state.bs)
-                                }, index);
+                                }, residue_segment_offset + index);
                             }
 
                             f_dist[residual_symbol] += (_learning_rate << 1);
-- 
2.43.0


From 95e5ce86afa310005eca98bc52935fde100e64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:57 +0000
Subject: [PATCH 36/38] fix: static image pre-coding uses leading bytes as
 contexts, low bytes as residues, and stores its result

---
 src/hzip_codec/sharingan/state_transition.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index dfee4ab..cbb6d07 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -123,26 +123,26 @@ SharinganStateTransition::static_precode() {
             for (uint64_t x = 0; x < _width; x++) {
                 uint64_t index = y_offset + x;
 
-                uint64_t curr_symbol = _data[index] >> shift;
+                uint64_t curr_symbol = (_data[index] >> shift) & 0xff;
 
                 if (x > 0) {
-                    auto left_symbol = _data[index - 1];
+                    uint64_t left_symbol = (_data[index - 1] >> shift) & 0xff;
                     uint32_t ls = ls_chan[left_symbol][curr_symbol];
                     uint32_t bs = bs_chan[left_symbol][curr_symbol];
 
-                    array[index] = SSTPair{.ls=ls, .bs=bs};
+                    array.set(SSTPair{.ls=ls, .bs=bs}, index);
                 } else if (y > 0) {
                     if (_locality_context_order > 1) {
-                        auto up_symbol = _data[index - _width];
+                        uint64_t up_symbol = (_data[index - _width] >> shift) & 0xff;
                         uint32_t ls = ls_chan[up_symbol][curr_symbol];
                         uint32_t bs = bs_chan[up_symbol][curr_symbol];
 
-                        array[index] = SSTPair{.ls=ls, .bs=bs};
+                        array.set(SSTPair{.ls=ls, .bs=bs}, index);
                     } else {
-                        array[index] = uniform_pair(curr_symbol);
+                        array.set(uniform_pair(curr_symbol), index);
                     }
                 } else {
-                    array[index] = uniform_pair(curr_symbol);
+                    array.set(uniform_pair(curr_symbol), index);
                 }
             }
         }
@@ -156,18 +156,18 @@ SharinganStateTransition::static_precode() {
             auto ls_arr = _frequency_dists[channel_index];
             auto bs_arr = _cumulative_dists[channel_index];
 
-            uint64_t channel_offset = residue_offset + per_channel_size * channel_index;
+            uint64_t channel_offset = per_channel_size * channel_index;
             for (uint64_t y = 0; y < _height; y++) {
                 uint64_t y_offset = channel_offset + y * _width;
 
                 for (uint64_t x = 0; x < _width; x++) {
                     uint64_t index = y_offset + x;
-                    uint64_t curr_symbol = _data[index];
+                    uint64_t curr_symbol = _data[index] & 0xff;
 
                     uint32_t ls = ls_arr[curr_symbol];
                     uint32_t bs = bs_arr[curr_symbol];
 
-                    array[index] = SSTPair{.ls=ls, .bs=bs};
+                    array.set(SSTPair{.ls=ls, .bs=bs}, residue_offset + index);
                 }
             }
         }
-- 
2.43.0


From ac2f2446630bbc3a9a67c458b7a26219d5e066c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:57 +0000
Subject: [PATCH 37/38] fix: dynamic image pre-coding falls back to the CPU
 without OpenCL support

---
 src/hzip_codec/sharingan/state_transition.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index cbb6d07..42384e8 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -469,14 +469,14 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
     return std::pair<rainman::virtual_array<SSTPair>, std::mutex &>(array, cache_mutex);
 }
 
+#endif
+
 std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransition::dynamic_precode() {
-    if (hzruntime::Config::opencl_support_enabled) {
-        if (_width * _height > 1000000) {
-            return opencl_dynamic_precode();
-        } else {
-            return cpu_dynamic_precode();
-        }
+#ifdef HZIP_ENABLE_OPENCL
+    if (hzruntime::Config::opencl_support_enabled && _width * _height > 1000000) {
+        return opencl_dynamic_precode();
     }
-}
-
 #endif
+
+    return cpu_dynamic_precode();
+}
-- 
2.43.0


From 77bf47997da9c3b349932247cae0a837d3233f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:58 +0000
Subject: [PATCH 38/38] fix: image kernel gets an 8-bit shift and cleared
 frequency tables

---
 src/hzip_codec/sharingan/state_transition.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 42384e8..66733f2 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -404,6 +404,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
         {
             std::scoped_lock<std::mutex> device_lock(device_mutex);
             auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+            queue.enqueueFillBuffer<cl_ulong>(g_freq_map, 0, 0, true_size * 65536 * sizeof(uint64_t));
+            queue.enqueueBarrierWithWaitList();
             queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
             queue.enqueueBarrierWithWaitList();
             queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
@@ -439,7 +441,7 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             kernel.setArg(3, _chunk_width);
             kernel.setArg(4, _chunk_height);
             kernel.setArg(5, _locality_context_order);
-            kernel.setArg(6, 0);
+            kernel.setArg(6, (uint8_t) 0);
             kernel.setArg(7, true);
             kernel.setArg(8, _width);
             kernel.setArg(9, _height);
@@ -451,6 +453,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             {
                 std::scoped_lock<std::mutex> device_lock(device_mutex);
                 auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+                queue.enqueueFillBuffer<cl_ulong>(g_freq_map, 0, 0, true_size * 256 * sizeof(uint64_t));
+                queue.enqueueBarrierWithWaitList();
                 queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
                 queue.enqueueBarrierWithWaitList();
                 queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
-- 
2.43.0

