From f961f5f2aa6ade2ccf0676f31915b6431ddaac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:42 +0000
Subject: [PATCH 01/66] fix: look up the first string of a bulk insert in
 memory when it is not stored yet

computeBucketFromStorageAndMemory treated index 0 as always stored, so a bulk
insert into an empty dictionary dereferenced a null offset map as soon as another
string of the same batch probed the bucket of the first one.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..20f3b85 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,7 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
+      if (candidate_string_index >= 0 &&
           static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
-- 
2.43.0


From 19b8e6afb382fa228e569dd10c4e8e1f16077feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 02/66] fix: serialise access to the dictionary's cached string
 list

copyStrings() created and extended strings_cache_ without a lock, so two concurrent
callers could read freed strings or leave duplicated entries in the cache.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 omniscidb/StringDictionary/StringDictionary.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 20f3b85..a603777 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1058,6 +1058,7 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
   generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
                                : static_cast<int64_t>(entryCount());
+  std::lock_guard<std::mutex> cache_lock(strings_cache_mutex_);
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
     strings_cache_->reserve(entryCount());
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..08ec7d8 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -25,6 +25,7 @@
 #include <functional>
 #include <future>
 #include <map>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <tuple>
@@ -276,6 +277,7 @@ class StringDictionary {
       regex_cache_;
   mutable std::map<std::string, int32_t> equal_cache_;
   mutable DictionaryCache<std::string, compare_cache_value_t> compare_cache_;
+  mutable std::mutex strings_cache_mutex_;
   mutable std::shared_ptr<std::vector<std::string>> strings_cache_;
 
   char* CANARY_BUFFER{nullptr};
-- 
2.43.0


From 5387b823512478fc8da90da5784a41d8fe8b933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:36 +0000
Subject: [PATCH 03/66] fix: compare all own strings of nested dictionaries in
 operator==

The loop used the number of own strings as the end id, so with a non-empty base
dictionary some or all of the own strings were never compared.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index a603777..aa98b08 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,7 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
+  for (auto str_id = base_generation_;
+       str_id < base_generation_ + static_cast<int64_t>(str_count_);
        ++str_id) {
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
-- 
2.43.0


From 9a8d91d4830061d4ce36ee5709741287f689e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:36 +0000
Subject: [PATCH 04/66] fix: keep the dictionary consistent when a bulk insert
 exceeds the id range

getOrAddBulkParallel() left ids in the hash table for strings it never stored, and
the serial path kept stale compare/like caches for the strings it had already added.
---
 .../StringDictionary/StringDictionary.cpp     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index aa98b08..7b1acaa 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -455,6 +455,9 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     // need to add record to dictionary
     // check there is room
     if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+      if (str_count_ > initial_str_count) {
+        invalidateInvertedIndex();
+      }
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -497,6 +500,15 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   std::vector<size_t> string_memory_ids;
   size_t sum_new_string_lengths = 0;
   string_memory_ids.reserve(input_strings.size());
+  // Makes strings which already got their ids a part of the dictionary.
+  auto commit_new_strings = [&]() {
+    appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+    const size_t num_strings_added = shadow_str_count - str_count_;
+    str_count_ = shadow_str_count;
+    if (num_strings_added > 0) {
+      invalidateInvertedIndex();
+    }
+  };
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
@@ -542,6 +554,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // Did not find string, so need to add record to dictionary
     // First check there is room
     if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+      commit_new_strings();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
@@ -555,12 +568,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     output_string_ids[input_string_idx++] = indexToId(shadow_str_count++);
   }
-  appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
-  const size_t num_strings_added = shadow_str_count - str_count_;
-  str_count_ = shadow_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
+  commit_new_strings();
 }
 template void StringDictionary::getOrAddBulk(const std::vector<std::string>& string_vec,
                                              uint8_t* encoded_vec);
-- 
2.43.0


From aa073a3e29197fe4e6b320e4b4f4671464e4a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:41 +0000
Subject: [PATCH 05/66] fix: report ids which do not fit a narrow type in bulk
 inserts instead of truncating them

---
 omniscidb/StringDictionary/StringDictionary.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 7b1acaa..e65d6be 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -449,6 +449,14 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     uint32_t hash_bucket =
         computeBucket(input_string_hash, input_string, string_id_uint32_table_);
     if (string_id_uint32_table_[hash_bucket] != INVALID_STR_ID) {
+      // The string could be added through a wider type.
+      if (static_cast<int64_t>(string_id_uint32_table_[hash_bucket]) >
+          static_cast<int64_t>(max_valid_int_value<T>())) {
+        if (str_count_ > initial_str_count) {
+          invalidateInvertedIndex();
+        }
+        throw_encoding_error<T>(input_string, dict_ref_);
+      }
       output_string_ids[idx++] = string_id_uint32_table_[hash_bucket];
       continue;
     }
@@ -548,6 +556,12 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // (computeBucketFromStorageAndMemory) already checked to ensure the input string and
     // bucket string are equal)
     if (string_id_uint32_table_[hash_bucket] != INVALID_STR_ID) {
+      // The string could be added through a wider type.
+      if (static_cast<int64_t>(string_id_uint32_table_[hash_bucket]) >
+          static_cast<int64_t>(max_valid_int_value<T>())) {
+        commit_new_strings();
+        throw_encoding_error<T>(input_string, dict_ref_);
+      }
       output_string_ids[input_string_idx++] = string_id_uint32_table_[hash_bucket];
       continue;
     }
-- 
2.43.0


From 6afa842f97e2d9ef1fcb9b2a4979fbcd99d56923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 06/66] fix: lock the source dictionary when a union
 translation map reads its strings

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index e65d6be..cbf8dff 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1526,7 +1526,7 @@ std::vector<int32_t> StringDictionary::buildUnionTranslationMap(
          source_string_id < static_cast<int32_t>(translated_ids.size());
          ++source_string_id) {
       if (translated_ids[source_string_id] == StringDictionary::INVALID_STR_ID) {
-        const auto source_string = getStringUnlocked(source_string_id);
+        const auto source_string = getString(source_string_id);
         const auto dest_string_id = dest->getOrAdd(source_string);
         translated_ids[source_string_id] = dest_string_id;
       }
-- 
2.43.0


From 4a411c8a38749f2811d197120a5ff377c9cd9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:46 +0000
Subject: [PATCH 07/66] fix: don't unlock a destroyed mutex when unpinning a
 zero-copy buffer

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..56f3f33 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,11 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      // Release the mutex first because it is destroyed with the buffer.
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From 922af496dbf524c2eda0ab7733aeb88bbbd8e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:46 +0000
Subject: [PATCH 08/66] fix: hold chunk_index_mutex_ for all chunk index
 accesses in eviction and OOM paths

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..1ca7f9c 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -145,11 +145,14 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
   try {
     allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
+    {
+      std::lock_guard<std::mutex> lock(chunk_index_mutex_);
+      auto buffer_it = chunk_index_.find(chunk_key);
+      CHECK(buffer_it != chunk_index_.end());
+      buffer_it->second->buffer =
+          nullptr;  // constructor failed for the buffer object so make sure to mark it
+                    // null so deleteBuffer doesn't try to delete it
+    }
     deleteBuffer(chunk_key);
     throw;
   }
@@ -181,6 +184,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
-- 
2.43.0


From e91ee7a50d8f7229e39c827897efd7ab36e84d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:46 +0000
Subject: [PATCH 09/66] fix: report out of memory instead of evicting from an
 empty slab list

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 1ca7f9c..22c5b56 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -372,6 +372,11 @@ BufferList::iterator BufferMgr::findFreeBuffer(size_t num_bytes) {
     throw FailedToCreateFirstSlab(num_bytes);
   }
 
+  if (slab_segments_.empty()) {
+    // No slabs and nothing to evict from.
+    throw OutOfMemory(num_bytes);
+  }
+
   // If here then we can't add a slab - so we need to evict
 
   size_t min_score = std::numeric_limits<size_t>::max();
-- 
2.43.0


From f77fc7ccc91e3834539e54c7b2b40e0a3dbb82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:15 +0000
Subject: [PATCH 10/66] fix: release the in-progress mark and the pin when
 extending a pooled buffer fails

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 22c5b56..d9e2514 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -734,22 +734,30 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
 
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
-        if (buffer_it->second->buffer->size() < num_bytes) {
+        auto buffer = buffer_it->second->buffer;
+        if (buffer->size() < num_bytes) {
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
-
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
 
-        res = buffer_it->second->buffer;
+        res = buffer;
       } else {  // If wasn't in pool then we need to fetch it
         sized_segs_lock.unlock();
         // Create conditional variable to later notify all other threads
-- 
2.43.0


From d92e65fec4c99f9861238cae8e791de0c509e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:15 +0000
Subject: [PATCH 11/66] fix: drop a pooled buffer whose initial fetch failed
 instead of leaking its pin

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index d9e2514..909e653 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -780,7 +780,14 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // Nobody else can use the buffer while it is marked as in progress.
+            // Don't leave it pinned and half-filled in the pool.
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From bcfcb18f4b872c23331a0978f6dd311a1f89d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:15 +0000
Subject: [PATCH 12/66] fix: synchronize BufferMgr::fetchBuffer with other
 fetches of the same chunk

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 42 +++--------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 909e653..5ef7c0b 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -799,44 +799,12 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
 void BufferMgr::fetchBuffer(const ChunkKey& key,
                             AbstractBuffer* dest_buffer,
                             const size_t num_bytes) {
-  std::unique_lock<std::mutex> sized_segs_lock(sized_segs_mutex_);
-  std::unique_lock<std::mutex> chunk_index_lock(chunk_index_mutex_);
-
-  // This method is only called by child BufferMgr which should guarantee
-  // we have no parallel calls for the same key. For that reason we don't
-  // use in_progress_buffer_cvs_ here.
-  auto buffer_it = chunk_index_.find(key);
-  bool found_buffer = buffer_it != chunk_index_.end();
-  chunk_index_lock.unlock();
-  AbstractBuffer* buffer;
-  if (!found_buffer) {
-    sized_segs_lock.unlock();
-    CHECK(parent_mgr_ != 0);
-    if (auto token = getZeroCopyBufferMemory(key, num_bytes)) {
-      buffer = createZeroCopyBuffer(key, std::move(token));
-    } else {
-      buffer = createBuffer(key, page_size_, num_bytes);  // will pin buffer
-      try {
-        parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (std::runtime_error& error) {
-        LOG(FATAL) << "Could not fetch parent buffer " << keyToString(key);
-      }
-    }
-  } else {
-    buffer = buffer_it->second->buffer;
-    buffer->pin();
-    sized_segs_lock.unlock();
-
-    if (num_bytes > buffer->size()) {
-      try {
-        parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (std::runtime_error& error) {
-        LOG(FATAL) << "Could not fetch parent buffer " << keyToString(key);
-      }
-    }
-  }
+  // Child managers of different devices and direct users of this manager can ask for
+  // the same key concurrently, so go through getBuffer, which synchronizes them.
+  CHECK(parent_mgr_ != 0);
+  AbstractBuffer* buffer = getBuffer(key, num_bytes);
+  ScopeGuard unpin([&]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
-  buffer->unPin();
 }
 
 int BufferMgr::getBufferId() {
-- 
2.43.0


From 925ee64729bb9c0eeab9119631b41ddc9120b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:38 +0000
Subject: [PATCH 13/66] fix: make type creation in hdk::ir::Context thread-safe

---
 omniscidb/IR/Context.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..35a23ef 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -11,6 +11,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/functional/hash.hpp>
 
+#include <mutex>
 #include <regex>
 #include <unordered_map>
 
@@ -23,6 +24,7 @@ class ContextImpl {
   const NullType* null() { return null_type_.get(); }
 
   const BooleanType* boolean(bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = boolean_types_[nullable];
     if (!res) {
       res.reset(new BooleanType(ctx_, nullable));
@@ -31,6 +33,7 @@ class ContextImpl {
   }
 
   const IntegerType* integer(int size, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = integer_types_[std::make_pair(size, nullable)];
     if (!res) {
       if (size != 1 && size != 2 && size != 4 && size != 8) {
@@ -43,6 +46,7 @@ class ContextImpl {
   }
 
   const FloatingPointType* fp(FloatingPointType::Precision precision, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = floating_point_types_[std::make_pair(precision, nullable)];
     if (!res) {
       res.reset(new FloatingPointType(ctx_, precision, nullable));
@@ -51,6 +55,7 @@ class ContextImpl {
   }
 
   const DecimalType* decimal(int size, int precision, int scale, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = decimal_types_[std::make_tuple(size, precision, scale, nullable)];
     if (!res) {
       if (size != 8) {
@@ -68,6 +73,7 @@ class ContextImpl {
   }
 
   const VarCharType* varChar(int max_length, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = varchar_types_[std::make_pair(max_length, nullable)];
     if (!res) {
       if (max_length < 0) {
@@ -80,6 +86,7 @@ class ContextImpl {
   }
 
   const TextType* text(bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = text_types_[nullable];
     if (!res) {
       res.reset(new TextType(ctx_, nullable));
@@ -88,6 +95,7 @@ class ContextImpl {
   }
 
   const DateType* date(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = date_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       if (size != 2 && size != 4 && size != 8) {
@@ -110,6 +118,7 @@ class ContextImpl {
   }
 
   const TimeType* time(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = time_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       if (size != 2 && size != 4 && size != 8) {
@@ -132,6 +141,7 @@ class ContextImpl {
   }
 
   const TimestampType* timestamp(TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = timestamp_types_[std::make_pair(unit, nullable)];
     if (!res) {
       if (unit == TimeUnit::kMonth || unit == TimeUnit::kDay) {
@@ -143,6 +153,7 @@ class ContextImpl {
   }
 
   const IntervalType* interval(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = interval_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       res.reset(new IntervalType(ctx_, size, unit, nullable));
@@ -153,6 +164,7 @@ class ContextImpl {
   const FixedLenArrayType* arrayFixed(int num_elems,
                                       const Type* elem_type,
                                       bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = fixed_array_types_[std::make_tuple(num_elems, elem_type, nullable)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -177,6 +189,7 @@ class ContextImpl {
   const VarLenArrayType* arrayVarLen(const Type* elem_type,
                                      int offs_size,
                                      bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = varlen_array_types_[std::make_tuple(offs_size, elem_type, nullable)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -199,6 +212,7 @@ class ContextImpl {
   }
 
   const ExtDictionaryType* extDict(const Type* elem_type, int dict_id, int index_size) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = ext_dict_types_[std::make_tuple(elem_type, dict_id, index_size)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -219,6 +233,7 @@ class ContextImpl {
   }
 
   const ColumnType* column(const Type* column_type, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = column_types_[std::make_pair(column_type, nullable)];
     if (!res) {
       if (&ctx_ != &column_type->ctx()) {
@@ -231,6 +246,7 @@ class ContextImpl {
   }
 
   const ColumnListType* columnList(const Type* column_type, int length, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = column_list_types_[std::make_tuple(column_type, length, nullable)];
     if (!res) {
       if (&ctx_ != &column_type->ctx()) {
@@ -447,6 +463,8 @@ class ContextImpl {
 
  private:
   Context& ctx_;
+  // Protects type maps below.
+  std::mutex mutex_;
   std::unique_ptr<const NullType> null_type_;
   std::unordered_map<bool, std::unique_ptr<const BooleanType>> boolean_types_;
   std::unordered_map<std::pair<int, bool>,
-- 
2.43.0


From 690d318127c14a9342b71a6b9282dc71a1bb61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:39 +0000
Subject: [PATCH 14/66] fix: copy element types when copying array and
 dictionary types to another context

---
 omniscidb/IR/Context.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 35a23ef..92cbf2c 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -310,19 +310,20 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
-- 
2.43.0


From 6b293af1138c702fb792c10befe7d67ce01bd617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:42 +0000
Subject: [PATCH 15/66] fix: look up wide ids in bulk inserts of narrow ids
 into nested dictionaries

---
 omniscidb/StringDictionary/StringDictionary.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index cbf8dff..37ba605 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -416,6 +416,21 @@ template <class T, class String>
 void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
                                     T* output_string_ids) {
   if (base_dict_) {
+    if constexpr (sizeof(T) < sizeof(int32_t)) {
+      // INVALID_STR_ID and ids assigned by the base dictionary might not fit T.
+      std::vector<int32_t> wide_ids(input_strings.size());
+      getOrAddBulk(input_strings, wide_ids.data());
+      for (size_t i = 0; i < wide_ids.size(); ++i) {
+        if (wide_ids[i] == inline_int_null_value<int32_t>()) {
+          output_string_ids[i] = inline_int_null_value<T>();
+        } else if (wide_ids[i] > static_cast<int32_t>(max_valid_int_value<T>())) {
+          throw_encoding_error<T>(input_strings[i], dict_ref_);
+        } else {
+          output_string_ids[i] = static_cast<T>(wide_ids[i]);
+        }
+      }
+      return;
+    }
     auto missing_count =
         base_dict_->getBulk(input_strings, output_string_ids, base_generation_);
     if (!missing_count) {
-- 
2.43.0


From 8d9d1a2d5cfdda1246f16c507ceaf8de4f3ac29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 16/66] fix: don't read past the last chunk when moving a
 quantile iterator to the end

---
 omniscidb/Shared/quantile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 1e8c778..9d318a0 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -73,7 +73,9 @@ class ChunkedArray {
       if (i < 0) {
         operator-=(-i);
       } else {
-        while (true) {
+        // Don't look at the next chunk when the move ends exactly at its start, it might
+        // not exist.
+        while (i > 0) {
           int64_t rem = int64_t((*chunks_)[chunk_idx_].max_elems - chunk_offs_);
           if (rem > i) {
             chunk_offs_ += i;
-- 
2.43.0


From 5bd927b6bafdfce93d58e09fa22472959bc704da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 17/66] fix: avoid integer overflow in quantile interpolation

---
 omniscidb/Shared/quantile.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 9d318a0..7c7dff8 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -333,7 +333,10 @@ class Quantile {
       double diff_coeff =
           interpolation == hdk::ir::Interpolation::kMidpoint ? 0.5 : pos - floor(pos);
       auto right_value = *right_iter;
-      res = static_cast<ResultType>(left_value + (right_value - left_value) * diff_coeff);
+      // Use double arithmetic because the difference can exceed the range of ValueType.
+      res = static_cast<ResultType>(left_value + (static_cast<double>(right_value) -
+                                                  static_cast<double>(left_value)) *
+                                                     diff_coeff);
     } else {
       res = static_cast<ResultType>(left_value);
     }
-- 
2.43.0


From ce72e5fdbf0fa189c118d5bbbd45f6521d4148b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 18/66] fix: find the proxy of a removed dictionary by its
 regular id

---
 omniscidb/ResultSet/RowSetMemoryOwner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/RowSetMemoryOwner.cpp b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
index fc01e3b..c82fba2 100644
--- a/omniscidb/ResultSet/RowSetMemoryOwner.cpp
+++ b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
@@ -51,7 +51,7 @@ StringDictionary* RowSetMemoryOwner::getOrAddStringDictProxy(const int dict_id_i
   // It's possible the original dictionary has been removed from its storage
   // but we still have it in a proxy.
   if (dict_id != DictRef::literalsDictId) {
-    auto res = getStringDictProxyOwned(dict_id_in);
+    auto res = getStringDictProxyOwned(dict_id);
     CHECK(res) << "Cannot find dict or proxy " << dict_id_in;
     CHECK(generation < 0 || res->getBaseGeneration() == generation);
     return res.get();
-- 
2.43.0


From 0e8cb0c4741ebb38b1ea4e524c1fd1ca7368cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 19/66] fix: serialize creation of the literal dictionary and
 cloning in RowSetMemoryOwner

---
 omniscidb/ResultSet/RowSetMemoryOwner.cpp | 1 +
 omniscidb/ResultSet/RowSetMemoryOwner.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omniscidb/ResultSet/RowSetMemoryOwner.cpp b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
index c82fba2..2305f8d 100644
--- a/omniscidb/ResultSet/RowSetMemoryOwner.cpp
+++ b/omniscidb/ResultSet/RowSetMemoryOwner.cpp
@@ -57,6 +57,7 @@ StringDictionary* RowSetMemoryOwner::getOrAddStringDictProxy(const int dict_id_i
     return res.get();
   }
   CHECK_EQ(dict_id, DictRef::literalsDictId);
+  std::lock_guard<std::mutex> lock(state_mutex_);
   if (!lit_str_dict_proxy_) {
     DictRef literal_dict_ref(DictRef::invalidDbId, DictRef::literalsDictId);
     std::shared_ptr<StringDictionary> tsd =
diff --git a/omniscidb/ResultSet/RowSetMemoryOwner.h b/omniscidb/ResultSet/RowSetMemoryOwner.h
index 0e8d8ae..772ae5a 100644
--- a/omniscidb/ResultSet/RowSetMemoryOwner.h
+++ b/omniscidb/ResultSet/RowSetMemoryOwner.h
@@ -261,6 +261,7 @@ class RowSetMemoryOwner final : public SimpleAllocator, boost::noncopyable {
   std::shared_ptr<RowSetMemoryOwner> cloneStrDictDataOnly() {
     auto rtn = std::make_shared<RowSetMemoryOwner>(
         data_provider_, arena_block_size_, /*num_kernels=*/1);
+    std::lock_guard<std::mutex> lock(state_mutex_);
     rtn->str_dict_proxy_owned_ = str_dict_proxy_owned_;
     rtn->lit_str_dict_proxy_ = lit_str_dict_proxy_;
     return rtn;
-- 
2.43.0


From 258ed9ed9be27ea2ad2bdf8f26684851faf400e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:53 +0000
Subject: [PATCH 20/66] fix: find rows of the first fragment and first rows of
 fragments of uneven sizes

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..ac7a867 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -856,10 +856,10 @@ inline std::pair<int64_t, int64_t> get_frag_id_and_local_idx(
     const size_t tab_or_col_idx,
     const int64_t global_idx) {
   CHECK_GE(global_idx, int64_t(0));
-  for (int64_t frag_id = frag_offsets.size() - 1; frag_id > 0; --frag_id) {
+  for (int64_t frag_id = frag_offsets.size() - 1; frag_id >= 0; --frag_id) {
     CHECK_LT(tab_or_col_idx, frag_offsets[frag_id].size());
     const auto frag_off = static_cast<int64_t>(frag_offsets[frag_id][tab_or_col_idx]);
-    if (frag_off < global_idx) {
+    if (frag_off <= global_idx) {
       return {frag_id, global_idx - frag_off};
     }
   }
-- 
2.43.0


From d9fbf95d72729108cf7d7335dac5bab7881e7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:53 +0000
Subject: [PATCH 21/66] fix: do not apply offset and limit twice to the row
 count when aggregates are finalized

---
 omniscidb/ResultSet/ResultSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 300c087..ef3da55 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -1323,7 +1323,9 @@ void ResultSet::finalizeAggregates() {
         std::plus<size_t>());  // end iteration by storage
   }
 
-  setCachedRowCount(get_truncated_row_count(row_count, getLimit(), drop_first_));
+  // Limit and offset are already applied by the row iterator used in the
+  // single-threaded branch and are not set in the parallel one.
+  setCachedRowCount(row_count);
 }
 
 // namespace result_set
-- 
2.43.0


From 53bae303d06f54ea9a5994505d34236de374c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:53 +0000
Subject: [PATCH 22/66] fix: use the fetched row index to read lazily fetched
 strings for ordering

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index ac7a867..4527ff8 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -641,7 +641,7 @@ int64_t ResultSet::lazyReadInt(const int64_t ival,
         bool is_end{false};
         ChunkIter_get_nth(
             reinterpret_cast<ChunkIter*>(const_cast<int8_t*>(frag_col_buffer)),
-            storage_lookup_result.fixedup_entry_idx,
+            ival_copy,
             false,
             &vd,
             &is_end);
-- 
2.43.0


From f5623aaae21c5507b0ac54dfad9da261a837eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 23/66] fix: locate key columns of appended columnar storages
 by the entry count of the storage

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 4527ff8..59f38db 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -548,7 +548,7 @@ InternalTargetValue ResultSet::ColumnWiseTargetAccessor::getColumnInternal(
       ptr1 =
           buff + result_set_->query_mem_desc_.getTargetGroupbyIndex(target_logical_idx) *
                      result_set_->query_mem_desc_.getEffectiveKeyWidth() *
-                     result_set_->query_mem_desc_.entry_count_;
+                     storage_lookup_result.storage_ptr->query_mem_desc_.entry_count_;
     }
   }
 
@@ -1466,7 +1466,7 @@ TargetValue ResultSet::getTargetValueFromBufferColwise(
   const auto key_width = query_mem_desc_.getEffectiveKeyWidth();
   const auto key_idx = query_mem_desc_.getTargetGroupbyIndex(target_logical_idx);
   CHECK_GE(key_idx, 0);
-  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc_.getEntryCount() * key_width;
+  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc.getEntryCount() * key_width;
   return makeTargetValue(columnar_elem_ptr(local_entry_idx, key_col_ptr, key_width),
                          key_width,
                          target_info,
-- 
2.43.0


From b8963721a6b8c14cc18d2beed2299558ef2fae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 24/66] fix: order columnar results by the value of a quantile,
 not by its address

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 59f38db..dd0d467 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -565,6 +565,9 @@ InternalTargetValue ResultSet::ColumnWiseTargetAccessor::getColumnInternal(
             entry_idx, offsets_for_target.ptr2, offsets_for_target.compact_sz2),
         offsets_for_target.compact_sz2);
     return InternalTargetValue(i1, i2);
+  } else if (agg_info.is_agg && agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
+    auto* quantile = reinterpret_cast<hdk::quantile::Quantile*>(i1);
+    return getQuantileInternal(quantile, agg_info);
   } else {
     // for TEXT ENCODING NONE:
     if (type->isString()) {
-- 
2.43.0


From e747b7bffed27bee119124a12a25b115411304ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:52 +0000
Subject: [PATCH 25/66] fix: keep the range of narrow fixed-length columns in
 full width when updating stats from encoded data

---
 omniscidb/DataMgr/FixedLengthEncoder.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..a4232af 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,14 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                min = std::min(min, static_cast<T>(data[i]));
+                max = std::max(max, static_cast<T>(data[i]));
               }
             } else {
               nulls = true;
-- 
2.43.0


From c54ee6644f816456e1594388a7605d61b7902e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:48 +0000
Subject: [PATCH 26/66] fix: build metadata of an empty array result from
 element statistics

---
 .../ResultSetRegistry/ResultSetMetadata.cpp      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
index ba85b0a..fa27c85 100644
--- a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
@@ -77,12 +77,18 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
 
   if (rows->definitelyHasNoRows()) {
     // resultset has no valid storage, so we fill dummy metadata and return early
-    std::vector<std::unique_ptr<Encoder>> decoders;
     for (size_t i = 0; i < rows->colCount(); ++i) {
-      decoders.emplace_back(Encoder::Create(nullptr, rows->colType(i)));
-      const auto it_ok =
-          metadata_map.emplace(ResultSetTableToken::columnId(i),
-                               decoders.back()->getMetadata(rows->colType(i)));
+      auto col_type = rows->colType(i);
+      // Like below, use element stats for arrays. Stats of an empty array encoder are
+      // not initialized.
+      auto stats_type = col_type->isArray()
+                            ? col_type->as<hdk::ir::ArrayBaseType>()->elemType()
+                            : col_type;
+      auto encoder = Encoder::Create(nullptr, stats_type);
+      const auto it_ok = metadata_map.emplace(
+          ResultSetTableToken::columnId(i),
+          std::make_shared<ChunkMetadata>(
+              col_type, 0, 0, encoder->getMetadata(stats_type)->chunkStats()));
       CHECK(it_ok.second);
     }
     return metadata_map;
-- 
2.43.0


From 078d2c22e2f78c22b0c18dbd41397d36c5fabde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 27/66] fix: skip dropped rows in the zero-copy column buffer

---
 omniscidb/ResultSet/ResultSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index ef3da55..1da8122 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -935,7 +935,9 @@ bool ResultSet::isChunkedZeroCopyColumnarConversionPossible(size_t column_idx) c
 const int8_t* ResultSet::getColumnarBuffer(size_t column_idx) const {
   CHECK(isZeroCopyColumnarConversionPossible(column_idx));
   size_t slot_idx = query_mem_desc_.getSlotIndexForSingleSlotCol(column_idx);
-  return storage_->getUnderlyingBuffer() + query_mem_desc_.getColOffInBytes(slot_idx);
+  // Skip dropped rows.
+  return storage_->getUnderlyingBuffer() + query_mem_desc_.getColOffInBytes(slot_idx) +
+         drop_first_ * query_mem_desc_.getPaddedSlotWidthBytes(slot_idx);
 }
 
 std::vector<std::pair<const int8_t*, size_t>> ResultSet::getChunkedColumnarBuffer(
-- 
2.43.0


From 0db7d639e596c29117aa6ec13454e5d11433075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 28/66] fix: merge statistics of text columns when result
 metadata is computed in parallel

---
 omniscidb/DataMgr/StringNoneEncoder.h             |  4 +++-
 omniscidb/ResultSetRegistry/ResultSetMetadata.cpp | 11 +++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/omniscidb/DataMgr/StringNoneEncoder.h b/omniscidb/DataMgr/StringNoneEncoder.h
index af7f76d..835c794 100644
--- a/omniscidb/DataMgr/StringNoneEncoder.h
+++ b/omniscidb/DataMgr/StringNoneEncoder.h
@@ -78,7 +78,9 @@ class StringNoneEncoder : public Encoder {
     UNREACHABLE();
   }
 
-  void reduceStats(const Encoder&) override { CHECK(false); }
+  void reduceStats(const Encoder& that) override {
+    has_nulls = has_nulls || static_cast<const StringNoneEncoder&>(that).has_nulls;
+  }
 
   void writeMetadata(FILE* f) override {
     // assumes pointer is already in right place
diff --git a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
index fa27c85..a7438a3 100644
--- a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
@@ -95,10 +95,10 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
   }
 
   std::vector<std::vector<std::unique_ptr<Encoder>>> dummy_encoders;
-  std::vector<std::vector<size_t>> varlen_lengths;
   const size_t worker_count =
       result_set::use_parallel_algorithms(*rows) ? cpu_threads() : 1;
-  bool has_varlen = false;
+  std::vector<std::vector<size_t>> varlen_lengths(
+      worker_count, std::vector<size_t>(rows->colCount(), 0));
   for (size_t worker_idx = 0; worker_idx < worker_count; ++worker_idx) {
     dummy_encoders.emplace_back();
     for (size_t i = 0; i < rows->colCount(); ++i) {
@@ -111,14 +111,9 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
       } else {
         dummy_encoders.back().emplace_back(Encoder::Create(nullptr, col_type));
       }
-      has_varlen = has_varlen || col_type->isVarLen();
     }
   }
-  if (has_varlen) {
-    varlen_lengths.resize(worker_count, std::vector<size_t>(rows->colCount(), 0));
-  }
 
-  rows->moveToBegin();
   const auto do_work = [rows](const std::vector<TargetValue>& crt_row,
                               std::vector<std::unique_ptr<Encoder>>& dummy_encoders,
                               std::vector<size_t>& varlen_lengths) {
@@ -203,7 +198,7 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
     const auto& worker_encoders = dummy_encoders[worker_idx];
     for (size_t i = 0; i < rows->colCount(); ++i) {
       dummy_encoders[0][i]->reduceStats(*worker_encoders[i]);
-      if (rows->colType(i)->isVarLenArray()) {
+      if (rows->colType(i)->isVarLen()) {
         varlen_lengths[0][i] += varlen_lengths[worker_idx][i];
       }
     }
-- 
2.43.0


From 5a8ee9bc36d9fd9fbdfa52b284fc86684183ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 29/66] fix: don't use the shared cursor of a registered result
 to read it

---
 omniscidb/ResultSetRegistry/ColumnarResults.cpp   |  8 +++-----
 omniscidb/ResultSetRegistry/ResultSetMetadata.cpp | 10 +++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ColumnarResults.cpp b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
index a22924e..3ba61be 100644
--- a/omniscidb/ResultSetRegistry/ColumnarResults.cpp
+++ b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
@@ -313,16 +313,14 @@ void ColumnarResults::materializeAllColumnsThroughIteration(const ResultSet& row
   }
 
   size_t row_idx{0};
-  rows.moveToBegin();
-  auto crt_row = rows.getNextRow(false, false);
-  while (!crt_row.empty()) {
+  // Don't use cursor of the result set because it's shared by all its users.
+  for (auto row_it = rows.rowIterator(false, false); row_it.isValid(); ++row_it) {
+    const auto crt_row = *row_it;
     for (size_t i = 0; i < num_columns; ++i) {
       writeBackCell(crt_row[i], row_idx, i);
     }
     ++row_idx;
-    crt_row = rows.getNextRow(false, false);
   }
-  rows.moveToBegin();
 }
 
 /*
diff --git a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
index a7438a3..6e413f8 100644
--- a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
@@ -184,15 +184,11 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
       child.get();
     }
   } else {
-    while (true) {
-      auto crt_row = rows->getNextRow(false, false);
-      if (crt_row.empty()) {
-        break;
-      }
-      do_work(crt_row, dummy_encoders[0], varlen_lengths[0]);
+    // Don't use cursor of the result set because it's shared by all its users.
+    for (auto row_it = rows->rowIterator(false, false); row_it.isValid(); ++row_it) {
+      do_work(*row_it, dummy_encoders[0], varlen_lengths[0]);
     }
   }
-  rows->moveToBegin();
   for (size_t worker_idx = 1; worker_idx < worker_count; ++worker_idx) {
     CHECK_LT(worker_idx, dummy_encoders.size());
     const auto& worker_encoders = dummy_encoders[worker_idx];
-- 
2.43.0


From 9730822bd512105ea3fa95868fcaba5d005d86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 30/66] fix: respect limit and offset when a registered result
 is converted to columns

---
 .../ResultSetRegistry/ColumnarResults.cpp      | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ColumnarResults.cpp b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
index 3ba61be..dae900e 100644
--- a/omniscidb/ResultSetRegistry/ColumnarResults.cpp
+++ b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
@@ -82,10 +82,13 @@ ColumnarResults::ColumnarResults(std::shared_ptr<RowSetMemoryOwner> row_set_mem_
   auto timer = DEBUG_TIMER(__func__);
   column_buffers_.resize(num_columns);
 
-  // Currently, we don't support varlen columns in direct groupby buffers
-  // materialization. Use iteration instead.
+  // Currently, we don't support varlen columns, limit and offset in direct groupby
+  // buffers materialization. Use iteration instead.
   if (direct_columnar_conversion_ &&
       rows.getQueryDescriptionType() != QueryDescriptionType::Projection) {
+    if (rows.getLimit() || rows.getOffset()) {
+      direct_columnar_conversion_ = false;
+    }
     for (auto type : target_types) {
       if (type->isVarLen()) {
         direct_columnar_conversion_ = false;
@@ -259,9 +262,10 @@ void ColumnarResults::materializeAllProjectionColumnsThroughIteration(
   } else {
     // In case of sorted result, global entry index is an index to the permutation
     // buffer, so there is always a single chunk.
-    size_t row_count = rows.rowCount();
-    size_t seg_begin = std::min(offset, row_count);
-    size_t seg_end = limit ? std::min(offset + limit, row_count) : row_count;
+    // Limit and offset are not applied to the permutation buffer.
+    size_t entry_count = rows.entryCount();
+    size_t seg_begin = std::min(offset, entry_count);
+    size_t seg_end = std::min(offset + limit, entry_count);
     chunks.push_back(std::make_tuple(seg_begin, seg_end, (size_t)0));
   }
   auto process_chunk = [&](std::tuple<size_t, size_t, size_t> chunk) {
@@ -652,9 +656,9 @@ void ColumnarResults::materializeAllLazyColumns(
             !target_types_[i]->isVarLen() && !target_types_[i]->isArray());
       }
     }
-    size_t first = rows.getOffset();
     size_t last = rows.entryCount();
-    if (rows.isTruncated()) {
+    size_t first = std::min(rows.getOffset(), last);
+    if (rows.getLimit()) {
       last = std::min(last, first + rows.getLimit());
     }
     for (auto interval : makeIntervals(first, last, worker_count)) {
-- 
2.43.0


From 0167aea0912213e200d4511451adb956c19cb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 31/66] fix: keep the order of fragments in the tail of a
 result

---
 omniscidb/ResultSetRegistry/ResultSetRegistry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
index fec26ff..1e0b43b 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
@@ -9,6 +9,7 @@
 
 #include "DataMgr/DataMgr.h"
 
+#include <algorithm>
 #include <iomanip>
 
 namespace hdk {
@@ -331,6 +332,8 @@ ResultSetTableTokenPtr ResultSetRegistry::tail(const ResultSetTableToken& token,
         break;
       }
     }
+    // Fragments were visited from the last one to the first one.
+    std::reverse(new_results.begin(), new_results.end());
   }
 
   // Copy column names to the resulting table.
-- 
2.43.0


From 97372e48bb8efa450c6f59e63624597da9dfd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 32/66] fix: register the dictionary of a result again when all
 its tables were dropped

---
 omniscidb/ResultSetRegistry/ResultSetRegistry.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
index 1e0b43b..d2fd5b1 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
@@ -134,10 +134,14 @@ ResultSetTableTokenPtr ResultSetRegistry::put(ResultSetTable table) {
         dict_proxy = first_rs->getStringDictionaryProxyOwned(dict_type->dictId());
         CHECK(dict_proxy);
       }
-      // Add proxy as a new dictionary if it exists and is not registered yet.
-      if (dict_proxy->getDictId() <= 0) {
-        auto dict_id = addSchemaIdChecked(next_dict_id_++, schema_id_);
-        dict_proxy->setDictId(dict_id);
+      // Add proxy as a new dictionary if it exists and is not registered yet. Proxy can
+      // have an ID but no registration if all tables which used it were dropped.
+      if (dict_proxy->getDictId() <= 0 || !dicts_.count(dict_proxy->getDictId())) {
+        auto dict_id = dict_proxy->getDictId();
+        if (dict_id <= 0) {
+          dict_id = addSchemaIdChecked(next_dict_id_++, schema_id_);
+          dict_proxy->setDictId(dict_id);
+        }
         auto dict_desc = std::make_unique<DictDescriptor>(db_id_,
                                                           dict_id,
                                                           first_rs->colName(col_idx),
-- 
2.43.0


From 4088bb8a60757200c7cf017f33f49df4e3b2e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 33/66] fix: don't access registry tables without a lock when
 table statistics are built

---
 omniscidb/ResultSetRegistry/ResultSetRegistry.cpp | 11 +++++------
 omniscidb/ResultSetRegistry/ResultSetRegistry.h   |  4 +++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
index d2fd5b1..41b1546 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
@@ -394,7 +394,7 @@ TableStats ResultSetRegistry::getTableStats(int table_id) const {
     }
   }
 
-  auto table_stats = buildTableStatsNoLock(table_id);
+  auto table_stats = buildTableStatsNoLock(table);
   table_lock.unlock();
   mapd_unique_lock<mapd_shared_mutex> table_write_lock(table.mutex);
   if (table.table_stats.empty()) {
@@ -403,11 +403,10 @@ TableStats ResultSetRegistry::getTableStats(int table_id) const {
   return table_stats;
 }
 
-TableStats ResultSetRegistry::buildTableStatsNoLock(int table_id) const {
+TableStats ResultSetRegistry::buildTableStatsNoLock(const TableData& table) const {
   // This method is only called when all fragments have computed metadata
-  // and table is read-locked.
-  CHECK(tables_.count(table_id));
-  auto& table = *tables_.at(table_id);
+  // and table is read-locked. Registry data is not locked here, so tables_ shouldn't
+  // be accessed.
   TableStats table_stats;
   {
     auto& first_frag = table.fragments.front();
@@ -567,7 +566,7 @@ std::shared_ptr<const TableFragmentsInfo> ResultSetRegistry::getTableMetadata(
     } else {
       // We can get here if all stats were materialized in the loop above.
       // In this case, build and assigne table stats.
-      TableStats table_stats = buildTableStatsNoLock(table_id);
+      TableStats table_stats = buildTableStatsNoLock(table);
       res->setTableStats(table_stats);
 
       table_lock.unlock();
diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.h b/omniscidb/ResultSetRegistry/ResultSetRegistry.h
index d5809a7..07aae7b 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.h
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.h
@@ -60,9 +60,11 @@ class ResultSetRegistry : public SimpleSchemaProvider,
   std::vector<int> listDatabases() const override { return {{DB_ID}}; }
 
  private:
+  struct TableData;
+
   ChunkStats getChunkStats(int table_id, size_t frag_idx, size_t col_idx) const;
   TableStats getTableStats(int table_id) const;
-  TableStats buildTableStatsNoLock(int table_id) const;
+  TableStats buildTableStatsNoLock(const TableData& table) const;
 
   struct DataFragment {
     size_t offset = 0;
-- 
2.43.0


From 301f437ca6003e18e8fdda36fc1a32ba0a7e1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 34/66] fix: set the size of a buffer fetched from a registered
 result

---
 omniscidb/ResultSetRegistry/ResultSetRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
index 41b1546..331f9f2 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
@@ -442,6 +442,7 @@ void ResultSetRegistry::fetchBuffer(const ChunkKey& key,
 
   CHECK(!table.use_columnar_res);
   rs->copyColumnIntoBuffer(col_idx, dest->getMemoryPtr(), num_bytes);
+  dest->setSize(num_bytes);
 }
 
 std::unique_ptr<Data_Namespace::AbstractDataToken>
-- 
2.43.0


From 46a370c77865f35e952a299ad90f5cd8fa5ebc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 35/66] fix: keep a key-less aggregate when a projection is
 merged over it

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 2884b86..17c2c03 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -484,7 +484,8 @@ void WorkUnitBuilder::processProject(const ir::Project* proj) {
     input_rewriter_.addReplacement(proj, i, new_target_exprs[i]);
   }
   target_exprs_[rte_idx] = std::move(new_target_exprs);
-  if (groupby_exprs_.empty()) {
+  // A projection of an aggregate with no keys is still an aggregate.
+  if (groupby_exprs_.empty() && !is_agg_) {
     groupby_exprs_.push_back(nullptr);
   }
 }
-- 
2.43.0


From 0a80d966331ea7e40d17cd83e73c14ac56284a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 36/66] fix: do not remap group-by references when join inputs
 are reordered

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 17c2c03..083d522 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -107,7 +107,8 @@ class NestLevelRewriter : public ir::ExprRewriter {
 
   ir::ExprPtr visitVar(const ir::Var* var) override {
     int old_rte_idx = var->rteIdx();
-    if (old_rte_idx < static_cast<int>(permutation_.size())) {
+    // Reference to a group-by key is not bound to any input table.
+    if (old_rte_idx >= 0 && old_rte_idx < static_cast<int>(permutation_.size())) {
       int new_rte_idx = static_cast<int>(permutation_.at(old_rte_idx));
       if (new_rte_idx != old_rte_idx) {
         return ir::makeExpr<ir::Var>(
-- 
2.43.0


From 371161c689becd0af4d905ab18ed68d1f539b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 37/66] fix: do not use MIN of a nullable value to detect empty
 groups

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index b0859a6..c8be23f 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -332,6 +332,13 @@ KeylessInfo get_keyless_info(const RelAlgExecutionUnit& ra_exe_unit,
           }
           auto expr_range_info =
               getExpressionRange(agg_expr->arg(), query_infos, executor);
+          // A nullable kMin starts from the NULL sentinel too. For floating point types
+          // it is a small positive number, so comparison with the range cannot tell
+          // a group having only nulls from an empty one.
+          if (expr_range_info.getType() == ExpressionRangeType::Invalid ||
+              expr_range_info.hasNulls()) {
+            break;
+          }
           auto init_max = get_agg_initial_val(agg_info.agg_kind,
                                               chosen_type,
                                               is_group_by || float_argument_input,
-- 
2.43.0


From bf880925bd702e5ae0bfd050d77909bf9f0bca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 38/66] fix: read non-aggregate targets of keyless perfect hash
 results with their own width

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index dd0d467..c2123d2 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -1517,12 +1517,12 @@ TargetValue ResultSet::getTargetValueFromBufferRowwise(
 
   auto ptr1 = rowwise_target_ptr;
   int8_t compact_sz1 = query_mem_desc_.getPaddedSlotWidthBytes(slot_idx);
-  if (query_mem_desc_.isSingleColumnGroupByWithPerfectHash() &&
-      !query_mem_desc_.hasKeylessHash() && !target_info.is_agg) {
+  if (query_mem_desc_.isSingleColumnGroupByWithPerfectHash() && !target_info.is_agg) {
     // Single column perfect hash group by can utilize one slot for both the key and the
     // target value if both values fit in 8 bytes. Use the target value actual size for
     // this case. If they don't, the target value should be 8 bytes, so we can still use
-    // the actual size rather than the compact size.
+    // the actual size rather than the compact size. The same goes for a keyless layout
+    // with 4-byte slots, where the last slot can be followed by a padding.
     compact_sz1 = query_mem_desc_.getLogicalSlotWidthBytes(slot_idx);
   }
 
-- 
2.43.0


From 0e4be0188bc63f8a93d76b10705e4deb53c81d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 39/66] fix: use the index of a non-empty fragment when
 gathering column fragments

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 62fd71f..7982ec5 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -342,7 +342,7 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
             CHECK(ab->getMemoryPtr());
             int8_t* col_buffer =
                 ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[frag_id].first, col_buffer, write_ptrs[frag_id].second);
+            memcpy(write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
           }
         });
 
-- 
2.43.0


From 5d091af5b8baa78a970143f4f5863eadd64a8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 40/66] fix: isolate the fragment gathering done under the
 fetch mutex from other kernels

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 65 +++++++++++++------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 7982ec5..6f58d9b 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -24,6 +24,7 @@
 #include "Shared/sqltypes.h"
 
 #include <tbb/parallel_for.h>
+#include <tbb/task_arena.h>
 #include <memory>
 
 namespace {
@@ -314,37 +315,41 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
 
     CHECK(!write_ptrs.empty());
     size_t valid_frag_count = valid_fragments.size();
-    tbb::parallel_for(
-        tbb::blocked_range<size_t>(0, valid_frag_count),
-        [&](const tbb::blocked_range<size_t>& frag_ids) {
-          for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
-               ++v_frag_id) {
-            std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
-            std::list<ChunkIter> chunk_iter_holder;
-            size_t frag_id = valid_fragments[v_frag_id];
-            const auto& fragment = (*fragments)[frag_id];
-            auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
-            CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
-            std::shared_ptr<Chunk_NS::Chunk> chunk;
-            {
-              ChunkKey chunk_key{
-                  db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
-              chunk = data_provider_->getChunk(col_info,
-                                               chunk_key,
-                                               Data_Namespace::CPU_LEVEL,
-                                               0,
-                                               chunk_meta_it->second->numBytes(),
-                                               chunk_meta_it->second->numElements());
-              std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
-              chunk_holder.push_back(chunk);
+    // The mutex is held here, so do not pick up an unrelated task (e.g. another execution
+    // kernel, which would lock the same mutex) when waiting for fragments.
+    tbb::this_task_arena::isolate([&] {
+      tbb::parallel_for(
+          tbb::blocked_range<size_t>(0, valid_frag_count),
+          [&](const tbb::blocked_range<size_t>& frag_ids) {
+            for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
+                 ++v_frag_id) {
+              std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
+              std::list<ChunkIter> chunk_iter_holder;
+              size_t frag_id = valid_fragments[v_frag_id];
+              const auto& fragment = (*fragments)[frag_id];
+              auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
+              CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
+              std::shared_ptr<Chunk_NS::Chunk> chunk;
+              {
+                ChunkKey chunk_key{
+                    db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
+                chunk = data_provider_->getChunk(col_info,
+                                                 chunk_key,
+                                                 Data_Namespace::CPU_LEVEL,
+                                                 0,
+                                                 chunk_meta_it->second->numBytes(),
+                                                 chunk_meta_it->second->numElements());
+                std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
+                chunk_holder.push_back(chunk);
+              }
+              auto ab = chunk->getBuffer();
+              CHECK(ab->getMemoryPtr());
+              int8_t* col_buffer =
+                  ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
+              memcpy(write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
             }
-            auto ab = chunk->getBuffer();
-            CHECK(ab->getMemoryPtr());
-            int8_t* col_buffer =
-                ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
-          }
-        });
+          });
+    });
 
     std::unique_ptr<ColumnarResults> merged_results(new ColumnarResults(
         {write_ptrs[0].first}, total_row_count, col_info->type, thread_idx));
-- 
2.43.0


From 7964c2dfa20a8b5202c0f46f00aa23cf8f6d8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 41/66] fix: build an empty one-to-many join hash table for a
 column with no values

---
 .../JoinHashTable/Builders/PerfectHashTableBuilder.h          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h b/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
index 889ec91..7979de8 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
+++ b/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
@@ -235,6 +235,10 @@ class PerfectJoinHashTableBuilder {
                           hash_entry_info.getNormalizedHashEntryCount(),
                           hash_join_invalid_val);
     }
+    if (!hash_entry_info) {
+      // The inner column has no values to match (it is empty or has only nulls).
+      return;
+    }
     {
       auto timer_fill = DEBUG_TIMER(
           "CPU One-To-Many Perfect Hash Table Builder: fill_hash_join_buff_bucketized");
-- 
2.43.0


From cf538678c9ce6e2ec4bc20e40e82ea2229a8dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 42/66] fix: report NULLs in the range of an empty table used
 as a left join inner input

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index be38911..0a97cd7 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -514,12 +514,13 @@ ExpressionRange getLeafColumnRange(const hdk::ir::ColumnVar* col_expr,
       CHECK(ti_idx);
       const auto& query_info = query_infos[*ti_idx].info;
       if (query_info->getNumTuples() == 0) {
-        // The column doesn't contain any values, synthesize an empty range.
+        // The column doesn't contain any values, synthesize an empty range. A left join
+        // can still produce NULLs for it.
         if (col_type->isFloatingPoint()) {
-          return col_type->size() == 4 ? ExpressionRange::makeFloatRange(0, -1, false)
-                                       : ExpressionRange::makeDoubleRange(0, -1, false);
+          return col_type->size() == 4 ? ExpressionRange::makeFloatRange(0, -1, has_nulls)
+                                       : ExpressionRange::makeDoubleRange(0, -1, has_nulls);
         }
-        return ExpressionRange::makeIntRange(0, -1, 0, false);
+        return ExpressionRange::makeIntRange(0, -1, 0, has_nulls);
       }
       if (col_expr->isVirtual()) {
         CHECK(col_type->isInt64());
-- 
2.43.0


From 7486011ef8550d0b090e9c77651d7629d8513d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 43/66] fix: isolate chunk fetch from tasks which can wait for
 the same chunk

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 5ef7c0b..ace20d0 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -21,6 +21,8 @@
  */
 #include "DataMgr/BufferMgr/BufferMgr.h"
 
+#include <tbb/task_arena.h>
+
 #include <algorithm>
 #include <iomanip>
 #include <limits>
@@ -747,8 +749,11 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           });
 
           // need to fetch part of buffer we don't have - up to numBytes
+          // The parent can use TBB for that. Use isolation to not pick up a task,
+          // which waits for the same chunk.
           try {
-            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+            tbb::this_task_arena::isolate(
+                [&] { parent_mgr_->fetchBuffer(key, buffer, num_bytes); });
           } catch (...) {
             buffer->unPin();
             throw;
@@ -772,8 +777,11 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           chunk_index_lock.unlock();
         });
 
-        // Check if we can zero-copy fetch requested chunk.
-        if (auto token = getZeroCopyBufferMemory(key, num_bytes)) {
+        // Check if we can zero-copy fetch requested chunk. The parent can use TBB here
+        // and below. Use isolation to not pick up a task, which waits for the same
+        // chunk.
+        if (auto token = tbb::this_task_arena::isolate(
+                [&] { return getZeroCopyBufferMemory(key, num_bytes); })) {
           res = createZeroCopyBuffer(key, std::move(token));
         } else {
           // createChunk pins for us
@@ -781,7 +789,8 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
           try {
-            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+            tbb::this_task_arena::isolate(
+                [&] { parent_mgr_->fetchBuffer(key, buffer, num_bytes); });
           } catch (...) {
             // Nobody else can use the buffer while it is marked as in progress.
             // Don't leave it pinned and half-filled in the pool.
-- 
2.43.0


From 4c5ff6c4bc1e0078caefb8e8bfcd085aacfd8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:14 +0000
Subject: [PATCH 44/66] fix: hoist only filters of the outer table of a left
 join in case of self-joins

---
 omniscidb/QueryEngine/IRCodegen.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/IRCodegen.cpp b/omniscidb/QueryEngine/IRCodegen.cpp
index 198987c..7c2b01e 100644
--- a/omniscidb/QueryEngine/IRCodegen.cpp
+++ b/omniscidb/QueryEngine/IRCodegen.cpp
@@ -19,6 +19,7 @@
 #include "ExternalExecutor.h"
 #include "IR/ExprCollector.h"
 #include "MaxwellCodegenPatch.h"
+#include "RangeTableIndexVisitor.h"
 #include "RelAlgTranslator.h"
 
 // Driver methods for the IR generation.
@@ -724,11 +725,14 @@ JoinLoop::HoistedFiltersCallback Executor::buildHoistLeftHandSideFiltersCb(
       if (selected_lhs) {
         std::list<hdk::ir::ExprPtr> hoisted_quals;
         // get all LHS-only filters
-        auto should_hoist_qual = [&hoisted_quals](const auto& qual, const int table_id) {
+        auto should_hoist_qual = [&](const auto& qual, const int table_id) {
           CHECK(qual);
 
+          // The same table can be used several times, so check its position too.
           const auto table_ids = ExprTableIdCollector::collect(qual.get());
-          if (table_ids.size() == 1 && table_ids.find(table_id) != table_ids.end()) {
+          if (table_ids.size() == 1 && table_ids.find(table_id) != table_ids.end() &&
+              MaxRangeTableIndexCollector::collect(qual.get()) ==
+                  selected_lhs->rteIdx()) {
             hoisted_quals.push_back(qual);
           }
         };
-- 
2.43.0


From c69bd150a27ed5ea397547dbccbecc373954b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 45/66] fix: return an empty estimation when no kernel was
 executed

---
 omniscidb/QueryEngine/Execute.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 156ca07..6ee6fa3 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -1161,6 +1161,12 @@ ResultSetPtr Executor::reduceMultiDeviceResults(
     const CompilationOptions& co) {
   auto timer = DEBUG_TIMER(__func__);
   if (ra_exe_unit.estimator) {
+    if (results_per_device.empty()) {
+      // No kernels were executed, e.g. because all fragments were skipped. Use zeroed
+      // estimator buffer to indicate there were no groups found.
+      return std::make_shared<ResultSet>(
+          ra_exe_unit.estimator, ExecutorDeviceType::CPU, 0, data_mgr_);
+    }
     return reduce_estimator_results(ra_exe_unit, results_per_device);
   }
 
-- 
2.43.0


From 56b70d0ef5a153698f7d6528ea3ae48bea5a9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 46/66] fix: do not use a slot padded for lazy fetch for a
 column which is fetched

---
 omniscidb/QueryEngine/TargetExprBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omniscidb/QueryEngine/TargetExprBuilder.cpp b/omniscidb/QueryEngine/TargetExprBuilder.cpp
index 07666ca..71a9d0b 100644
--- a/omniscidb/QueryEngine/TargetExprBuilder.cpp
+++ b/omniscidb/QueryEngine/TargetExprBuilder.cpp
@@ -290,6 +290,13 @@ void TargetExprCodegen::codegenAggregate(
   AUTOMATIC_IR_METADATA(executor->cgen_state_.get());
   size_t target_lv_idx = 0;
   const bool lazy_fetched{executor->plan_state_->isLazyFetchColumn(target_expr)};
+  if (!lazy_fetched && is_columnar_projection(query_mem_desc) &&
+      query_mem_desc.getPaddedSlotWidthBytes(slot_index) !=
+          query_mem_desc.getLogicalSlotWidthBytes(slot_index)) {
+    // The slot was padded to hold a lazy fetch index but the column has to be fetched
+    // because another target uses its value. Readers expect a logical sized slot then.
+    throw CompilationRetryNoLazyFetch();
+  }
 
   CodeGenerator code_generator(executor, co.codegen_traits_desc);
 
-- 
2.43.0


From 1e8972dc64c68ef8af35f3dcb702fe99a1241894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 47/66] fix: do not write a key of a keyless columnar perfect
 hash

---
 omniscidb/QueryEngine/RowFuncBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/omniscidb/QueryEngine/RowFuncBuilder.cpp b/omniscidb/QueryEngine/RowFuncBuilder.cpp
index 29162cf..a606f91 100644
--- a/omniscidb/QueryEngine/RowFuncBuilder.cpp
+++ b/omniscidb/QueryEngine/RowFuncBuilder.cpp
@@ -603,6 +603,15 @@ std::tuple<llvm::Value*, llvm::Value*> RowFuncBuilder::codegenSingleColumnPerfec
     const int32_t row_size_quad) {
   AUTOMATIC_IR_METADATA(executor_->cgen_state_.get());
   CHECK(query_mem_desc.usesGetGroupValueFast());
+  if (query_mem_desc.didOutputColumnar() && query_mem_desc.hasKeylessHash()) {
+    // There are no key columns in the buffer, so only compute the bin index and leave
+    // the buffer (which starts with the first target) untouched.
+    CHECK_EQ(query_mem_desc.getBucket(), int64_t(0));
+    auto bin_offset = LL_BUILDER.CreateSub(group_expr_lv_translated,
+                                           LL_INT(query_mem_desc.getMinVal()));
+    return std::make_tuple(&*groups_buffer,
+                           executor_->cgen_state_->castToTypeIn(bin_offset, 32));
+  }
   std::string get_group_fn_name{query_mem_desc.didOutputColumnar()
                                     ? "get_columnar_group_bin_offset"
                                     : "get_group_value_fast"};
-- 
2.43.0


From 54a1cca396e5c700191920e8f0ab66b68297ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 48/66] fix: report running out of slots on the first row of a
 fragment

---
 omniscidb/QueryEngine/RowFuncBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/RowFuncBuilder.cpp b/omniscidb/QueryEngine/RowFuncBuilder.cpp
index a606f91..4362382 100644
--- a/omniscidb/QueryEngine/RowFuncBuilder.cpp
+++ b/omniscidb/QueryEngine/RowFuncBuilder.cpp
@@ -272,7 +272,9 @@ bool RowFuncBuilder::codegen(llvm::Value* filter_result,
           LL_BUILDER.CreateRet(LL_INT(int32_t(0)));
         } else {
           CodeGenerator code_generator(executor_, co.codegen_traits_desc);
-          LL_BUILDER.CreateRet(LL_BUILDER.CreateNeg(LL_BUILDER.CreateTrunc(
+          // -(pos + 1): running out of slots on the very first row of a fragment is an
+          // error too.
+          LL_BUILDER.CreateRet(LL_BUILDER.CreateNot(LL_BUILDER.CreateTrunc(
               // TODO(alex): remove the trunc once pos is converted to 32 bits
               code_generator.posArg(nullptr),
               get_int_type(32, LL_CONTEXT))));
-- 
2.43.0


From 0425eb927ffdc90e225700d703c9195ad64387c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 49/66] fix: simplify a disjunction by its absorbing term

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 083d522..62fc2d4 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -278,17 +278,16 @@ hdk::ir::ExprPtr reverse_logical_distribution(const hdk::ir::ExprPtr& expr) {
         remaining_quals.push_back(qual);
       }
     }
-    if (!remaining_quals.empty()) {
-      remaining_terms.push_back(
-          build_logical_expression(remaining_quals, hdk::ir::OpType::kAnd));
+    if (remaining_quals.empty()) {
+      // `p OR (p AND q)` is equal to `p`.
+      return build_logical_expression(common_factors, hdk::ir::OpType::kAnd);
     }
+    remaining_terms.push_back(
+        build_logical_expression(remaining_quals, hdk::ir::OpType::kAnd));
   }
   // Reconstruct the expression with the transformation applied.
   const auto common_expr =
       build_logical_expression(common_factors, hdk::ir::OpType::kAnd);
-  if (remaining_terms.empty()) {
-    return common_expr;
-  }
   const auto remaining_expr =
       build_logical_expression(remaining_terms, hdk::ir::OpType::kOr);
   return Analyzer::normalizeOperExpr(
-- 
2.43.0


From abee18b08bd39385d8839bc45b792a63a603403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 50/66] fix: allow concurrent compilation of different
 reduction functions

---
 omniscidb/QueryEngine/CodeCacheAccessor.h | 27 ++++++-----------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/omniscidb/QueryEngine/CodeCacheAccessor.h b/omniscidb/QueryEngine/CodeCacheAccessor.h
index 23699d2..4eeba57 100644
--- a/omniscidb/QueryEngine/CodeCacheAccessor.h
+++ b/omniscidb/QueryEngine/CodeCacheAccessor.h
@@ -18,6 +18,7 @@
 #define QUERYENGINE_CODECACHEACCESSOR_HPP
 
 #include <mutex>
+#include <set>
 #include <string>
 #include "QueryEngine/CodeCache.h"
 
@@ -32,8 +33,7 @@ class CodeCacheAccessor {
       , ignore_count_(0)
       , overwrite_count_(0)
       , evict_count_(0)
-      , name_(std::move(name))
-      , compiling_key_(nullptr) {}
+      , name_(std::move(name)) {}
 
   // TODO: replace get_value/put with get_or_wait/put workflow.
   CodeCacheVal<CompilationContext> get_value(const CodeCacheKey& key) {
@@ -86,10 +86,7 @@ class CodeCacheAccessor {
       return result;
     }
 
-    if (compiling_key_) {
-      CHECK(false);
-    }
-    compiling_key_ = &key;
+    compiling_keys_.insert(key);
     return result;
   }
 
@@ -100,7 +97,7 @@ class CodeCacheAccessor {
     put_count_++;
     code_cache_.put(key, value);
 
-    compiling_key_ = nullptr;
+    compiling_keys_.erase(key);
     compilation_cv_.notify_all();
   }
 
@@ -124,17 +121,7 @@ class CodeCacheAccessor {
     return os;
   }
 
-  bool compiling(const CodeCacheKey& key) const {
-    if (compiling_key_) {
-      if (compiling_key_ == &key) {
-        return true;
-      }
-      if (key.size() == compiling_key_->size()) {
-        return std::equal(key.begin(), key.end(), compiling_key_->begin());
-      }
-    }
-    return false;
-  }
+  bool compiling(const CodeCacheKey& key) const { return compiling_keys_.count(key); }
 
  private:
   CodeCache<CompilationContext> code_cache_;
@@ -147,8 +134,8 @@ class CodeCacheAccessor {
   std::mutex code_cache_mutex_;
   // releases locks when compulation has completed succesfully:
   std::condition_variable compilation_cv_;
-  // holds pointer to key for which compilation is in progress
-  const CodeCacheKey* compiling_key_;
+  // holds keys for which compilation is in progress
+  std::set<CodeCacheKey> compiling_keys_;
 };
 
 #endif
-- 
2.43.0


From 68737e185e4c8682d2d8da1c13b0047b4a5652db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 51/66] fix: do not let a failed kernel cancel column gathering
 of another one

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 6f58d9b..730daeb 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -25,6 +25,7 @@
 
 #include <tbb/parallel_for.h>
 #include <tbb/task_arena.h>
+#include <tbb/task_group.h>
 #include <memory>
 
 namespace {
@@ -316,7 +317,10 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
     CHECK(!write_ptrs.empty());
     size_t valid_frag_count = valid_fragments.size();
     // The mutex is held here, so do not pick up an unrelated task (e.g. another execution
-    // kernel, which would lock the same mutex) when waiting for fragments.
+    // kernel, which would lock the same mutex) when waiting for fragments. A failure of
+    // another execution kernel must not cancel the loop either: it would return silently
+    // and leave fragments which are not copied.
+    tbb::task_group_context fetch_context(tbb::task_group_context::isolated);
     tbb::this_task_arena::isolate([&] {
       tbb::parallel_for(
           tbb::blocked_range<size_t>(0, valid_frag_count),
@@ -348,7 +352,9 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
                   ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
               memcpy(write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
             }
-          });
+          },
+          tbb::auto_partitioner{},
+          fetch_context);
     });
 
     std::unique_ptr<ColumnarResults> merged_results(new ColumnarResults(
-- 
2.43.0


From ed0eee896c6dbf5eafbe5adbbf85d0bcb732dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 52/66] fix: report running out of host memory as such

---
 omniscidb/QueryEngine/ExecutionKernel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ExecutionKernel.cpp b/omniscidb/QueryEngine/ExecutionKernel.cpp
index d01a32b..9e4ac53 100644
--- a/omniscidb/QueryEngine/ExecutionKernel.cpp
+++ b/omniscidb/QueryEngine/ExecutionKernel.cpp
@@ -134,7 +134,8 @@ void ExecutionKernel::run(Executor* executor,
     throw QueryExecutionError(Executor::ERR_OUT_OF_CPU_MEM, e.what());
   } catch (const OutOfMemory& e) {
     throw QueryExecutionError(
-        Executor::ERR_OUT_OF_GPU_MEM,
+        chosen_device_type == ExecutorDeviceType::GPU ? Executor::ERR_OUT_OF_GPU_MEM
+                                                      : Executor::ERR_OUT_OF_CPU_MEM,
         e.what(),
         QueryExecutionProperties{
             query_mem_desc.getQueryDescriptionType(),
@@ -456,7 +457,9 @@ void KernelSubtask::run(Executor* executor) {
     throw QueryExecutionError(Executor::ERR_OUT_OF_CPU_MEM, e.what());
   } catch (const OutOfMemory& e) {
     throw QueryExecutionError(
-        Executor::ERR_OUT_OF_GPU_MEM,
+        kernel_.chosen_device_type == ExecutorDeviceType::GPU
+            ? Executor::ERR_OUT_OF_GPU_MEM
+            : Executor::ERR_OUT_OF_CPU_MEM,
         e.what(),
         QueryExecutionProperties{
             kernel_.query_mem_desc.getQueryDescriptionType(),
-- 
2.43.0


From afe5d90b394fee790e4433e9021c0c22d636435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:53 +0000
Subject: [PATCH 53/66] fix: retry a query which ran out of GPU memory on CPU

---
 omniscidb/QueryEngine/RelAlgExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/RelAlgExecutor.cpp b/omniscidb/QueryEngine/RelAlgExecutor.cpp
index 2421fbb..962d976 100644
--- a/omniscidb/QueryEngine/RelAlgExecutor.cpp
+++ b/omniscidb/QueryEngine/RelAlgExecutor.cpp
@@ -1712,7 +1712,7 @@ ExecutionResult RelAlgExecutor::handleOutOfMemoryRetry(
   max_groups_buffer_entry_guess = 0;
 
   int iteration_ctr = -1;
-  while (!result.empty()) {
+  while (result.empty()) {
     iteration_ctr++;
     auto ra_exe_unit = decide_approx_count_distinct_implementation(
         ra_exe_unit_in, table_infos, executor_, co_cpu.device_type, target_exprs_owned_);
-- 
2.43.0


From 58d37e0511f7b8719c6864ea1887809ac3ec3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:39 +0000
Subject: [PATCH 54/66] fix: use the layout of a perfect hash table taken from
 the cache

---
 omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp b/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
index 9fe0300..27f259d 100644
--- a/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
@@ -631,6 +631,11 @@ int PerfectJoinHashTable::initHashTableForDevice(
         }
       }
     }
+    if (hash_table) {
+      // A table taken from the cache might have been put there after the cached layout
+      // was requested.
+      hash_type_ = hash_table->getLayout();
+    }
     // Transfer the hash table on the GPU if we've only built it on CPU
     // but the query runs on GPU (join on dictionary encoded columns).
     if (memory_level_ == Data_Namespace::GPU_LEVEL) {
-- 
2.43.0


From 72cea757fea74b029b32edaaf3843a1ba3288869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:39 +0000
Subject: [PATCH 55/66] fix: use a baseline hash table which gets cached while
 it is being built

---
 omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp b/omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp
index fa1697f..ea69b62 100644
--- a/omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp
@@ -662,6 +662,8 @@ int BaselineJoinHashTable::initHashTableForDevice(
               0,
               {});
         }
+      } else {
+        hash_tables_for_device_[device_id] = hash_table;
       }
     }
     // Transfer the hash table on the GPU if we've only built it on CPU
-- 
2.43.0


From 47a4dea1a1faa63923ec7450a8055c5dd4b8f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:39 +0000
Subject: [PATCH 56/66] fix: don't request a cardinality estimation for a
 projection out of slots

---
 omniscidb/QueryEngine/RelAlgExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/RelAlgExecutor.cpp b/omniscidb/QueryEngine/RelAlgExecutor.cpp
index 962d976..157f067 100644
--- a/omniscidb/QueryEngine/RelAlgExecutor.cpp
+++ b/omniscidb/QueryEngine/RelAlgExecutor.cpp
@@ -1506,7 +1506,7 @@ ExecutionResult RelAlgExecutor::executeWorkUnit(
       rs_table.setQueueTime(queue_time_ms);
       return registerResultSetTable(rs_table, targets_meta, eo.just_explain);
     } catch (const QueryExecutionError& e) {
-      if (!has_ndv_estimation && e.getErrorCode() < 0) {
+      if (is_agg && !has_ndv_estimation && e.getErrorCode() < 0) {
         throw CardinalityEstimationRequired(/*range=*/0);
       }
       handlePersistentError(e.getErrorCode());
-- 
2.43.0


From 3042b2e76069fd545c61765a58a7590bc4a56f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 57/66] fix: add casts back to the sides of a lowered tuple
 equality

---
 omniscidb/QueryEngine/CompareIR.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/omniscidb/QueryEngine/CompareIR.cpp b/omniscidb/QueryEngine/CompareIR.cpp
index 481ec1f..cfe3be6 100644
--- a/omniscidb/QueryEngine/CompareIR.cpp
+++ b/omniscidb/QueryEngine/CompareIR.cpp
@@ -143,12 +143,18 @@ std::shared_ptr<const hdk::ir::BinOper> lower_bw_eq(const hdk::ir::BinOper* bw_e
 
 std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
                                                 const hdk::ir::ExprPtr& rhs,
-                                                hdk::ir::OpType optype) {
+                                                hdk::ir::OpType optype,
+                                                const Executor* executor) {
   CHECK(hdk::ir::isEquivalence(optype));
   // Sides of a tuple equality are stripped of cast operators to simplify the logic
-  // in the hash table construction algorithm. Add them back here.
+  // in the hash table construction algorithm. Add them back here. Casts are added only
+  // when the executor is provided.
   auto eq_oper = std::dynamic_pointer_cast<const hdk::ir::BinOper>(
-      Analyzer::normalizeOperExpr(optype, hdk::ir::Qualifier::kOne, lhs, rhs));
+      Analyzer::normalizeOperExpr(optype,
+                                  hdk::ir::Qualifier::kOne,
+                                  lhs,
+                                  rhs,
+                                  optype == hdk::ir::OpType::kEq ? executor : nullptr));
   CHECK(eq_oper);
   return optype == hdk::ir::OpType::kBwEq ? lower_bw_eq(eq_oper.get()) : eq_oper;
 }
@@ -156,7 +162,8 @@ std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
 // Convert a column tuple equality expression back to a conjunction of comparisons
 // so that it can be handled by the regular code generation methods.
 std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
-    const hdk::ir::BinOper* multicol_compare) {
+    const hdk::ir::BinOper* multicol_compare,
+    const Executor* executor) {
   const auto left_tuple_expr =
       dynamic_cast<const hdk::ir::ExpressionTuple*>(multicol_compare->leftOperand());
   const auto right_tuple_expr =
@@ -166,9 +173,11 @@ std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
   const auto& right_tuple = right_tuple_expr->tuple();
   CHECK_EQ(left_tuple.size(), right_tuple.size());
   CHECK_GT(left_tuple.size(), size_t(1));
-  auto acc = make_eq(left_tuple.front(), right_tuple.front(), multicol_compare->opType());
+  auto acc = make_eq(
+      left_tuple.front(), right_tuple.front(), multicol_compare->opType(), executor);
   for (size_t i = 1; i < left_tuple.size(); ++i) {
-    auto crt = make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType());
+    auto crt =
+        make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType(), executor);
     const bool nullable = acc->type()->nullable() || crt->type()->nullable();
     acc = hdk::ir::makeExpr<hdk::ir::BinOper>(acc->type()->ctx().boolean(nullable),
                                               false,
@@ -232,7 +241,7 @@ llvm::Value* CodeGenerator::codegenCmp(const hdk::ir::BinOper* bin_oper,
   const auto rhs = bin_oper->rightOperand();
   if (dynamic_cast<const hdk::ir::ExpressionTuple*>(lhs)) {
     CHECK(dynamic_cast<const hdk::ir::ExpressionTuple*>(rhs));
-    const auto lowered = lower_multicol_compare(bin_oper);
+    const auto lowered = lower_multicol_compare(bin_oper, executor());
     const auto lowered_lvs = codegen(lowered.get(), true, co);
     CHECK_EQ(size_t(1), lowered_lvs.size());
     return lowered_lvs.front();
-- 
2.43.0


From 17f92a447374fc6098f4d7b2d0af552c551ab10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 58/66] fix: keep the cost model whole when a calibration fails

---
 omniscidb/QueryEngine/CostModel/CostModel.cpp | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/CostModel.cpp b/omniscidb/QueryEngine/CostModel/CostModel.cpp
index 1d801f8..71eb75d 100644
--- a/omniscidb/QueryEngine/CostModel/CostModel.cpp
+++ b/omniscidb/QueryEngine/CostModel/CostModel.cpp
@@ -37,24 +37,29 @@ CostModel::CostModel(CostModelConfig config) : config_(std::move(config)) {
 void CostModel::calibrate(const CaibrationConfig& conf) {
   std::unique_lock<std::shared_mutex> l(latch_);
 
-  Detail::DeviceMeasurements dm;
+  // Models that cannot be built fail the calibration like missing measurements do, so
+  // the current predictions are replaced only when all new models are ready.
+  DevicePredictions new_dp = dp_;
 
   try {
-    dm = config_.data_source->getMeasurements(conf.devices, templates_);
+    Detail::DeviceMeasurements dm =
+        config_.data_source->getMeasurements(conf.devices, templates_);
+
+    for (auto& dm_entry : dm) {
+      ExecutorDeviceType device = dm_entry.first;
+
+      for (auto& template_measurement : dm_entry.second) {
+        AnalyticalTemplate templ = template_measurement.first;
+        new_dp[device][templ] =
+            extrapolation_provider_.provide(std::move(template_measurement.second));
+      }
+    }
   } catch (const std::exception& e) {
     LOG(ERROR) << "Cost model calibration failure: " << e.what();
     return;
   }
 
-  for (const auto& dm_entry : dm) {
-    ExecutorDeviceType device = dm_entry.first;
-
-    for (auto& template_measurement : dm_entry.second) {
-      AnalyticalTemplate templ = template_measurement.first;
-      dp_[device][templ] =
-          extrapolation_provider_.provide(std::move(template_measurement.second));
-    }
-  }
+  dp_ = std::move(new_dp);
 }
 
 std::vector<CostModel::DeviceExtrapolations> CostModel::getExtrapolations(
-- 
2.43.0


From b1b73b27f5a22795bcf4088d2d3d248454117a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 59/66] fix: don't predict negative run times

---
 .../ExtrapolationModels/LinearExtrapolation.cpp   |  7 ++++---
 .../ExtrapolationModels/LinearRegression.cpp      | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
index db52329..ea9deca 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
@@ -40,10 +40,11 @@ size_t LinearExtrapolation::getExtrapolatedData(size_t bytes) const {
     id1 = id2 - 1;
   }
 
-  size_t y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
-  size_t x1 = measurement_[id1].bytes, x2 = measurement_[id2].bytes;
+  double y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
+  double x1 = measurement_[id1].bytes, x2 = measurement_[id2].bytes;
 
-  return y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1);
+  // The line may go below zero outside of the measured range.
+  return std::max(0.0, y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1));
 }
 
 }  // namespace costmodel
diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
index 8d1e1ed..06f6ec5 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
@@ -12,7 +12,9 @@
 */
 
 #include "LinearRegression.h"
+#include <algorithm>
 #include <armadillo>
+#include <stdexcept>
 
 namespace costmodel {
 
@@ -37,10 +39,21 @@ LinearRegression::~LinearRegression() = default;
 
 size_t LinearRegression::getExtrapolatedData(size_t bytes) const {
   arma::vec x = {1.0, static_cast<double>(bytes)};
-  return static_cast<size_t>(arma::dot(x, pimpl_->weights));
+  // The fitted line may go below zero outside of the measured range.
+  return static_cast<size_t>(std::max(0.0, arma::dot(x, pimpl_->weights)));
 }
 
 void LinearRegression::buildRegressionCoefficients() {
+  // No line is determined by measurements of a single size; with rounding errors the
+  // singular matrix below could still be inverted to arbitrary weights.
+  if (std::all_of(measurement_.begin(),
+                  measurement_.end(),
+                  [this](const Detail::Measurement& m) {
+                    return m.bytes == measurement_.front().bytes;
+                  })) {
+    throw std::runtime_error("linear regression requires measurements of two sizes");
+  }
+
   // y(x) = w0 + \sum xj * wj = x^T * w
   arma::mat X = pimpl_->buildFeaturesMatrix(measurement_);
   arma::vec y = pimpl_->buildTargets(measurement_);
-- 
2.43.0


From 6bf60f04810b1e0bddf14aeb814f403304f0db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 60/66] fix: don't truncate proportions of 4 GiB and more

---
 .../Dispatchers/ProportionBasedExecutionPolicy.cpp     |  6 +++---
 .../Dispatchers/ProportionBasedExecutionPolicy.h       |  2 +-
 omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp | 10 +++++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
index 14a98d9..2b8dc47 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
@@ -25,10 +25,10 @@ ProportionBasedExecutionPolicy::ProportionBasedExecutionPolicy(
   CHECK_GT(proportion.size(), 0u);
   proportion_.merge(proportion);
   total_parts_ = std::accumulate(
-      proportion_.begin(), proportion_.end(), 0u, [](unsigned acc, auto& cur) {
+      proportion_.begin(), proportion_.end(), size_t(0), [](size_t acc, auto& cur) {
         return acc + cur.second;
       });
-  if (total_parts_ == 0u) {
+  if (total_parts_ == 0) {
     throw std::runtime_error(
         "Invalid proportion based execution policy. At least one portion must be greater "
         "than zero.");
@@ -39,7 +39,7 @@ SchedulingAssignment ProportionBasedExecutionPolicy::scheduleSingleFragment(
     const FragmentInfo& fragment,
     size_t frag_id,
     size_t frag_num) const {
-  unsigned scheduled_portion = 0;
+  size_t scheduled_portion = 0;
   for (auto& [device_type, portion] : proportion_) {
     if (frag_id * total_parts_ < (portion + scheduled_portion) * frag_num) {
       auto memory_level = device_type == ExecutorDeviceType::GPU
diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
index 13d2a2c..a4b9f4d 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
@@ -35,6 +35,6 @@ class ProportionBasedExecutionPolicy : public ExecutionPolicy {
 
  private:
   std::map<ExecutorDeviceType, unsigned> proportion_;
-  unsigned total_parts_;
+  size_t total_parts_;
 };
 }  // namespace policy
diff --git a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
index 6429e42..fefb486 100644
--- a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
+++ b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
@@ -36,7 +36,7 @@ std::unique_ptr<policy::ExecutionPolicy> IterativeCostModel::predict(
     const {
   std::shared_lock<std::shared_mutex> l(latch_);
 
-  unsigned cpu_prop = 1, gpu_prop = 0;
+  size_t cpu_prop = 1, gpu_prop = 0;
   size_t opt_step =
       std::ceil(static_cast<float>(query_info.bytes_size) / optimization_iterations_);
   size_t runtime_prediction = std::numeric_limits<size_t>::max();
@@ -71,10 +71,14 @@ std::unique_ptr<policy::ExecutionPolicy> IterativeCostModel::predict(
     }
   }
 
+  // Portions are unsigned, so big sizes are scaled down to fit.
+  const size_t scale =
+      query_info.bytes_size / std::numeric_limits<unsigned>::max() + 1;
+
   std::map<ExecutorDeviceType, unsigned> proportion;
 
-  proportion[ExecutorDeviceType::GPU] = gpu_prop;
-  proportion[ExecutorDeviceType::CPU] = cpu_prop;
+  proportion[ExecutorDeviceType::GPU] = gpu_prop / scale;
+  proportion[ExecutorDeviceType::CPU] = cpu_prop / scale;
 
   return std::make_unique<policy::ProportionBasedExecutionPolicy>(std::move(proportion),
                                                                   devices_dispatch_modes);
-- 
2.43.0


From bb4760785573d23e73fe910bbcf05450b02ecf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 61/66] fix: saturate the t-digest scaling function at its
 upper end

---
 omniscidb/Shared/approx_quantile.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/approx_quantile.h b/omniscidb/Shared/approx_quantile.h
index 5d8b885..cff196b 100644
--- a/omniscidb/Shared/approx_quantile.h
+++ b/omniscidb/Shared/approx_quantile.h
@@ -617,7 +617,10 @@ TDigest<RealType, IndexType>::maxCardinality(IndexType const sum,
   } else {
     // Whitepaper scaling function k=1.
     RealType const x = 2.0 * sum / total_weight - 1;  // = 2 q_{i-1} - 1
-    RealType const f_inv = 0.5 + 0.5 * std::sin(c + std::asin(x));
+    // f_inv saturates at 1, otherwise the last centroids could not be merged.
+    constexpr RealType half_pi = 1.570796326794896619231321691639751442e+00;
+    RealType const angle = c + std::asin(x);
+    RealType const f_inv = angle < half_pi ? 0.5 + 0.5 * std::sin(angle) : 1;
     constexpr RealType eps = 1e-5;  // round-off epsilon for floor().
     IndexType const dsum = static_cast<IndexType>(total_weight * f_inv + eps);
     return dsum < sum ? 0 : dsum - sum;
-- 
2.43.0


From 8d061a1c89bb9c689c5eed6226d7a150dcfe61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 62/66] fix: don't subtract the extremes from singleton
 t-digest centroids

---
 omniscidb/Shared/approx_quantile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/approx_quantile.h b/omniscidb/Shared/approx_quantile.h
index cff196b..2531f14 100644
--- a/omniscidb/Shared/approx_quantile.h
+++ b/omniscidb/Shared/approx_quantile.h
@@ -834,10 +834,12 @@ DEVICE RealType TDigest<RealType, IndexType>::slope(IndexType idx1, IndexType id
     bool const max2 = idx2 == M - 1;  // idx2 is the max centroid
     RealType const n1 = static_cast<RealType>(centroids_.counts_[idx1] - min1 - max1);
     RealType const s1 = centroids_.sums_[idx1] - (min1 ? min() : max1 ? max() : 0);
-    RealType const s2 = centroids_.sums_[idx2] - (min2 ? min() : max2 ? max() : 0);
     if (isSingleton(centroids_.counts_.begin() + idx2)) {
+      // A singleton min/max centroid is the min/max value itself.
+      RealType const s2 = centroids_.sums_[idx2];
       return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - s1) / (n1 * n1);
     } else {
+      RealType const s2 = centroids_.sums_[idx2] - (min2 ? min() : max2 ? max() : 0);
       RealType const n2 = static_cast<RealType>(centroids_.counts_[idx2] - min2 - max2);
       return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - n2 * s1) / (n1 * n2 * (n1 + n2));
     }
-- 
2.43.0


From e17b85b5d082c912d53b6823f16f9285a813ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 63/66] fix: DATEADD of a null number is null

---
 omniscidb/QueryEngine/DateAdd.cpp    | 4 ++--
 omniscidb/QueryEngine/DateTimeIR.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/DateAdd.cpp b/omniscidb/QueryEngine/DateAdd.cpp
index 4e4244d..11f43ca 100644
--- a/omniscidb/QueryEngine/DateAdd.cpp
+++ b/omniscidb/QueryEngine/DateAdd.cpp
@@ -155,7 +155,7 @@ DateAddNullable(const hdk::ir::DateAddField field,
                 const int64_t number,
                 const int64_t timeval,
                 const int64_t null_val) {
-  if (timeval == null_val) {
+  if (timeval == null_val || number == null_val) {
     return null_val;
   }
   return DateAdd(field, number, timeval);
@@ -167,7 +167,7 @@ DateAddHighPrecisionNullable(const hdk::ir::DateAddField field,
                              const int64_t timeval,
                              const int32_t dim,
                              const int64_t null_val) {
-  if (timeval == null_val) {
+  if (timeval == null_val || number == null_val) {
     return null_val;
   }
   return DateAddHighPrecision(field, number, timeval, dim);
diff --git a/omniscidb/QueryEngine/DateTimeIR.cpp b/omniscidb/QueryEngine/DateTimeIR.cpp
index 116affb..60772ba 100644
--- a/omniscidb/QueryEngine/DateTimeIR.cpp
+++ b/omniscidb/QueryEngine/DateTimeIR.cpp
@@ -200,7 +200,7 @@ llvm::Value* CodeGenerator::codegen(const hdk::ir::DateAddExpr* dateadd_expr,
     dateadd_fname += "HighPrecision";
     dateadd_args.push_back(cgen_state_->llInt(unitToDimension(datetime_unit)));
   }
-  if (datetime_type->nullable()) {
+  if (datetime_type->nullable() || dateadd_expr->number()->type()->nullable()) {
     dateadd_args.push_back(cgen_state_->inlineIntNull(datetime_type));
     dateadd_fname += "Nullable";
   }
-- 
2.43.0


From 8a223a759f319885d7120992685f06c424c1bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 64/66] fix: QUANTILE over no input needs a quantile, not a
 null value

---
 omniscidb/QueryEngine/Execute.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 6ee6fa3..60a527b 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -2533,6 +2533,7 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
                                   std::vector<int64_t>& entry,
                                   const std::vector<const hdk::ir::Expr*>& target_exprs,
                                   const QueryMemoryDescriptor& query_mem_desc,
+                                  RowSetMemoryOwner* row_set_mem_owner,
                                   bool bigint_count) {
   for (size_t target_idx = 0; target_idx < target_exprs.size(); ++target_idx) {
     const auto target_expr = target_exprs[target_idx];
@@ -2554,6 +2555,8 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
       } else {
         entry.push_back(inline_null_val(agg_info.type, float_argument_input));
       }
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
+      entry.push_back(reinterpret_cast<int64_t>(row_set_mem_owner->quantiles(1)));
     } else {
       entry.push_back(inline_null_val(agg_info.type, float_argument_input));
     }
@@ -2585,16 +2588,17 @@ ResultSetPtr build_row_for_empty_input(
     target_exprs_owned_copies.push_back(target_expr_copy);
     target_exprs.push_back(target_expr_copy.get());
   }
+  CHECK(executor);
+  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
+  CHECK(row_set_mem_owner);
   std::vector<TargetInfo> target_infos;
   std::vector<int64_t> entry;
   fill_entries_for_empty_input(target_infos,
                                entry,
                                target_exprs,
                                query_mem_desc,
+                               row_set_mem_owner.get(),
                                executor->getConfig().exec.group_by.bigint_count);
-  CHECK(executor);
-  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
-  CHECK(row_set_mem_owner);
   auto rs = std::make_shared<ResultSet>(target_infos,
                                         device_type,
                                         query_mem_desc,
-- 
2.43.0


From c5cac9918b222b928e291b63211b3c9f660a7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 65/66] fix: ranges of fields extracted from high-precision
 timestamps

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 32 ++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 0a97cd7..7e7e394 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -816,20 +816,33 @@ ExpressionRange getExpressionRange(
       CHECK(arg_range.getType() == ExpressionRangeType::Integer);
       const int64_t year_range_min =
           is_hpt
-              ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMin() / hdk::ir::unitsPerSecond(unit))
+              ? ExtractFromTime(
+                    hdk::ir::DateExtractField::kYear,
+                    floor_div(arg_range.getIntMin(), hdk::ir::unitsPerSecond(unit)))
               : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMin());
       const int64_t year_range_max =
           is_hpt
-              ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMax() / hdk::ir::unitsPerSecond(unit))
+              ? ExtractFromTime(
+                    hdk::ir::DateExtractField::kYear,
+                    floor_div(arg_range.getIntMax(), hdk::ir::unitsPerSecond(unit)))
               : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMax());
       return ExpressionRange::makeIntRange(
           year_range_min, year_range_max, 0, arg_range.hasNulls());
     }
     case hdk::ir::DateExtractField::kEpoch:
-    case hdk::ir::DateExtractField::kDateEpoch:
-      return arg_range;
+    case hdk::ir::DateExtractField::kDateEpoch: {
+      if (arg_range.getType() == ExpressionRangeType::Invalid) {
+        return ExpressionRange::makeInvalidRange();
+      }
+      CHECK(arg_range.getType() == ExpressionRangeType::Integer);
+      // Seconds for all units, and the start of the day for kDateEpoch.
+      const int64_t units_per_sec = is_hpt ? hdk::ir::unitsPerSecond(unit) : 1;
+      return ExpressionRange::makeIntRange(
+          ExtractFromTime(extract_field, floor_div(arg_range.getIntMin(), units_per_sec)),
+          ExtractFromTime(extract_field, floor_div(arg_range.getIntMax(), units_per_sec)),
+          0,
+          arg_range.hasNulls());
+    }
     case hdk::ir::DateExtractField::kQuarterDay:
     case hdk::ir::DateExtractField::kQuarter:
       return ExpressionRange::makeIntRange(1, 4, 0, has_nulls);
@@ -844,11 +857,12 @@ ExpressionRange getExpressionRange(
     case hdk::ir::DateExtractField::kSecond:
       return ExpressionRange::makeIntRange(0, 60, 0, has_nulls);
     case hdk::ir::DateExtractField::kMilli:
-      return ExpressionRange::makeIntRange(0, 999, 0, has_nulls);
+      // Sub-second fields include seconds.
+      return ExpressionRange::makeIntRange(0, 59999, 0, has_nulls);
     case hdk::ir::DateExtractField::kMicro:
-      return ExpressionRange::makeIntRange(0, 999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kNano:
-      return ExpressionRange::makeIntRange(0, 999999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kDayOfWeek:
       return ExpressionRange::makeIntRange(0, 6, 0, has_nulls);
     case hdk::ir::DateExtractField::kIsoDayOfWeek:
-- 
2.43.0


From 11bd4600cac36c9af0cc9714ba402fd3fbbe031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 66/66] fix: 0.0 and -0.0 are equal sort keys

---
 omniscidb/QueryEngine/ResultSetSort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/QueryEngine/ResultSetSort.cpp b/omniscidb/QueryEngine/ResultSetSort.cpp
index 124b2f3..c43449d 100644
--- a/omniscidb/QueryEngine/ResultSetSort.cpp
+++ b/omniscidb/QueryEngine/ResultSetSort.cpp
@@ -444,12 +444,18 @@ bool ResultSetComparator<BUFFER_ITERATOR_TYPE>::operator()(
         if (float_argument_input) {
           const auto lhs_dval = *reinterpret_cast<const float*>(may_alias_ptr(&lhs_v.i1));
           const auto rhs_dval = *reinterpret_cast<const float*>(may_alias_ptr(&rhs_v.i1));
+          if (lhs_dval == rhs_dval) {  // e.g. 0.0 and -0.0
+            continue;
+          }
           return (lhs_dval < rhs_dval) != order_entry.is_desc;
         } else {
           const auto lhs_dval =
               *reinterpret_cast<const double*>(may_alias_ptr(&lhs_v.i1));
           const auto rhs_dval =
               *reinterpret_cast<const double*>(may_alias_ptr(&rhs_v.i1));
+          if (lhs_dval == rhs_dval) {
+            continue;
+          }
           return (lhs_dval < rhs_dval) != order_entry.is_desc;
         }
       }
-- 
2.43.0

