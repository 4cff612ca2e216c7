From b42da3d1da6b2293d9a5612ec94393b6d58ed15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:15 +0000
Subject: [PATCH 01/65] fix: compare all own strings of nested dictionaries in
 StringDictionary::operator==

The loop ran over [base_generation_, str_count_), which mixes ids with own string
counts and skips own strings of a dictionary with a non-empty base.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..975511c 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,8 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
-       ++str_id) {
+  for (size_t str_idx = 0; str_idx < str_count_; ++str_idx) {
+    const auto str_id = indexToId(str_idx);
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
     }
-- 
2.43.0


From b8d683d06b2703627493fe5015111c412043e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:15 +0000
Subject: [PATCH 02/65] fix: parallel bulk add must look for the first own
 string in memory, not in storage

Index 0 was always looked up in storage, though storage is not written before the
end of the bulk add: a string colliding with or equal to the first string of a bulk
add into an empty dictionary read unallocated memory.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 975511c..605a5c1 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,7 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
+      if (candidate_string_index >= 0 &&
           static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
-- 
2.43.0


From 3871fc2f1c360f92e9efe44b2210a610f8252384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:15 +0000
Subject: [PATCH 03/65] fix: bulk lookup in an empty dictionary must report
 empty strings as null

An empty (or capped to no strings) dictionary reported empty strings as missing
instead of null.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 605a5c1..aa5d43c 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -359,6 +359,13 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
     // Need to fill the resulting vector if it wasn't done by the base dictionary.
     if (!base_dict_) {
       fillInvalidStringIdsParallel(0, num_lookup_strings, encoded_vec);
+      for (int64_t string_idx = 0; string_idx < num_lookup_strings; ++string_idx) {
+        // Empty strings are nulls regardless of the dictionary content.
+        if (string_vec[string_idx].empty()) {
+          encoded_vec[string_idx] = inline_int_null_value<T>();
+          --base_num_strings_not_found;
+        }
+      }
     }
     return base_num_strings_not_found;
   }
-- 
2.43.0


From 0fec28d86b2c18ef54d6b8ffe80cddd5b74060d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:47 +0000
Subject: [PATCH 04/65] fix: recognise missing strings in nested dictionaries
 with 8 and 16-bit ids

Comparing an unsigned narrow id with INVALID_STR_ID (-1) is always unequal, so every
string missing from the base dictionary was taken as found and got an invalid id.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index aa5d43c..e07eed0 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -379,13 +379,18 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
         const int64_t start_idx = r.begin();
         const int64_t end_idx = r.end();
         for (int64_t string_idx = start_idx; string_idx != end_idx; ++string_idx) {
-          if (base_dict_ && encoded_vec[string_idx] != StringDictionary::INVALID_STR_ID) {
+          if (base_dict_ && encoded_vec[string_idx] !=
+                                static_cast<T>(StringDictionary::INVALID_STR_ID)) {
             continue;
           }
           const auto& input_string = string_vec[string_idx];
           if (input_string.empty()) {
-            encoded_vec[string_idx] = inline_int_null_value<T>();
-            ++found;
+            // Nulls are already encoded and counted by the base dictionary. For unsigned
+            // types they share the value with invalid ids.
+            if (!base_dict_) {
+              encoded_vec[string_idx] = inline_int_null_value<T>();
+              ++found;
+            }
             continue;
           }
           if (input_string.size() > StringDictionary::MAX_STRLEN) {
@@ -440,7 +445,7 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
   size_t idx = 0;
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[idx] != INVALID_STR_ID) {
+    if (base_dict_ && output_string_ids[idx] != static_cast<T>(INVALID_STR_ID)) {
       ++idx;
       continue;
     }
@@ -506,7 +511,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[input_string_idx] != INVALID_STR_ID) {
+    if (base_dict_ &&
+        output_string_ids[input_string_idx] != static_cast<T>(INVALID_STR_ID)) {
       ++input_string_idx;
       continue;
     }
-- 
2.43.0


From f6abb7f116c28391efb3aa8da4f16fea66ca4576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 05/65] fix: reject string ids that do not fit 8 and 16-bit
 encodings

The capacity check used the number of own strings rather than the id to store, and
ids of strings already in the dictionary were truncated without a check.
---
 .../StringDictionary/StringDictionary.cpp     | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index e07eed0..82f1935 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -287,6 +287,15 @@ void throw_encoding_error(std::string_view str, const DictRef& dict_ref) {
   throw std::runtime_error(oss.str());
 }
 
+template <class T>
+void checkEncodedIdRange(const int64_t string_id,
+                         std::string_view str,
+                         const DictRef& dict_ref) {
+  if (string_id > static_cast<int64_t>(max_valid_int_value<T>())) {
+    throw_encoding_error<T>(str, dict_ref);
+  }
+}
+
 void throw_string_too_long_error(std::string_view str, const DictRef& dict_ref) {
   std::ostringstream oss;
   oss << "The string '" << str << " could not be inserted into the dictionary "
@@ -403,6 +412,7 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
             encoded_vec[string_idx] = StringDictionary::INVALID_STR_ID;
             continue;
           }
+          checkEncodedIdRange<T>(string_id, input_string, dict_ref_);
           encoded_vec[string_idx] = string_id;
           ++found;
         }
@@ -460,14 +470,14 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     uint32_t hash_bucket =
         computeBucket(input_string_hash, input_string, string_id_uint32_table_);
     if (string_id_uint32_table_[hash_bucket] != INVALID_STR_ID) {
+      checkEncodedIdRange<T>(
+          string_id_uint32_table_[hash_bucket], input_string, dict_ref_);
       output_string_ids[idx++] = string_id_uint32_table_[hash_bucket];
       continue;
     }
     // need to add record to dictionary
     // check there is room
-    if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
-      throw_encoding_error<T>(input_string, dict_ref_);
-    }
+    checkEncodedIdRange<T>(indexToId(str_count_), input_string, dict_ref_);
     CHECK_LT(str_count_, MAX_STRCOUNT)
         << "Maximum number (" << str_count_
         << ") of Dictionary encoded Strings reached for this column";
@@ -548,14 +558,14 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // (computeBucketFromStorageAndMemory) already checked to ensure the input string and
     // bucket string are equal)
     if (string_id_uint32_table_[hash_bucket] != INVALID_STR_ID) {
+      checkEncodedIdRange<T>(
+          string_id_uint32_table_[hash_bucket], input_string, dict_ref_);
       output_string_ids[input_string_idx++] = string_id_uint32_table_[hash_bucket];
       continue;
     }
     // Did not find string, so need to add record to dictionary
     // First check there is room
-    if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
-      throw_encoding_error<T>(input_string, dict_ref_);
-    }
+    checkEncodedIdRange<T>(indexToId(shadow_str_count), input_string, dict_ref_);
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
         << "Maximum number (" << shadow_str_count
         << ") of Dictionary encoded Strings reached for this column";
-- 
2.43.0


From 54f98328ac9d6f127b1636a85fe3bbd99db58c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 06/65] fix: keep dictionary consistent when a bulk add exceeds
 the encoding limit

The serial path left stale search caches and the parallel path left the hash table
referring to strings that were never stored.
---
 .../StringDictionary/StringDictionary.cpp     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 82f1935..85174a2 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -43,6 +43,7 @@
 
 #include "Logger/Logger.h"
 #include "OSDependent/omnisci_fs.h"
+#include "Shared/scope.h"
 #include "Shared/sqltypes.h"
 #include "Shared/thread_count.h"
 #include "Utils/Regexp.h"
@@ -452,6 +453,12 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
   mapd_lock_guard<mapd_shared_mutex> write_lock(rw_mutex_);
 
   const size_t initial_str_count = str_count_;
+  // Strings added before an encoding error stay in the dictionary.
+  ScopeGuard invalidate_caches = [this, initial_str_count] {
+    if (str_count_ > initial_str_count) {
+      invalidateInvertedIndex();
+    }
+  };
   size_t idx = 0;
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
@@ -497,10 +504,6 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     output_string_ids[idx++] = string_id;
     ++str_count_;
   }
-  const size_t num_strings_added = str_count_ - initial_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
 }
 
 template <class T, class String>
@@ -518,6 +521,16 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   std::vector<size_t> string_memory_ids;
   size_t sum_new_string_lengths = 0;
   string_memory_ids.reserve(input_strings.size());
+  // The hash table already refers to the strings added before an encoding error, so
+  // those have to get to the storage in this case as well.
+  ScopeGuard store_added_strings = [&] {
+    appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+    const size_t num_strings_added = shadow_str_count - str_count_;
+    str_count_ = shadow_str_count;
+    if (num_strings_added > 0) {
+      invalidateInvertedIndex();
+    }
+  };
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
@@ -577,12 +590,6 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     output_string_ids[input_string_idx++] = indexToId(shadow_str_count++);
   }
-  appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
-  const size_t num_strings_added = shadow_str_count - str_count_;
-  str_count_ = shadow_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
 }
 template void StringDictionary::getOrAddBulk(const std::vector<std::string>& string_vec,
                                              uint8_t* encoded_vec);
-- 
2.43.0


From 15e6f65b9577d9a3b6d9cb71dd5360e85630d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 07/65] fix: throw on unsupported string comparison operators

The exception was constructed but not thrown.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 85174a2..b36355e 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1015,7 +1015,7 @@ std::vector<int32_t> StringDictionary::getCompare(const std::string& pattern,
       }
     }
   } else {
-    std::runtime_error("Unsupported string comparison operator");
+    throw std::runtime_error("Unsupported string comparison operator");
   }
   return ret;
 }
-- 
2.43.0


From e46ea9e4aa6c222206339fea6c67a84378762dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:26 +0000
Subject: [PATCH 08/65] fix: release the chunk when a buffer pool fetch fails

A failed fetch left a pinned buffer without (or with partial) data in the pool, where
it could neither be evicted nor told from a valid chunk, and a failed fetch of the
missing part of a chunk never woke up threads waiting for it.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 37 ++++++++++++++++-------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..daec932 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -717,30 +717,39 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
       auto buffer_it = chunk_index_.find(key);
       bool found_buffer = buffer_it != chunk_index_.end();
       if (found_buffer) {
-        CHECK(buffer_it->second->buffer);
-        buffer_it->second->buffer->pin();
+        auto buffer = buffer_it->second->buffer;
+        CHECK(buffer);
+        buffer->pin();
         sized_segs_lock.unlock();
 
         buffer_it->second->last_touched = buffer_epoch_++;  // race
 
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
-        if (buffer_it->second->buffer->size() < num_bytes) {
+        if (buffer->size() < num_bytes) {
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
 
-        res = buffer_it->second->buffer;
+        res = buffer;
       } else {  // If wasn't in pool then we need to fetch it
         sized_segs_lock.unlock();
         // Create conditional variable to later notify all other threads
@@ -763,7 +772,13 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // Don't leave a pinned buffer without data in the pool.
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From 9e455ee69f16f2c727694f269186bcf69200983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:26 +0000
Subject: [PATCH 09/65] fix: unpin the source chunk when a copy to another
 buffer pool fails

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index daec932..32b2fed 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -826,8 +826,8 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
       }
     }
   }
+  ScopeGuard unpin([buffer]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
-  buffer->unPin();
 }
 
 int BufferMgr::getBufferId() {
-- 
2.43.0


From f004c793d970138ccb08e4a78b98240192a1905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 10/65] fix: report a failed fetch through a buffer pool
 instead of aborting the process

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 32b2fed..92f0e35 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -809,8 +809,10 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
       buffer = createBuffer(key, page_size_, num_bytes);  // will pin buffer
       try {
         parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (std::runtime_error& error) {
-        LOG(FATAL) << "Could not fetch parent buffer " << keyToString(key);
+      } catch (...) {
+        // Don't leave a pinned buffer without data in the pool.
+        deleteBuffer(key);
+        throw;
       }
     }
   } else {
@@ -821,8 +823,9 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
     if (num_bytes > buffer->size()) {
       try {
         parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (std::runtime_error& error) {
-        LOG(FATAL) << "Could not fetch parent buffer " << keyToString(key);
+      } catch (...) {
+        buffer->unPin();
+        throw;
       }
     }
   }
-- 
2.43.0


From d5114e8574a7d7c0fbeb5f84cb32b2a2e5607a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:54 +0000
Subject: [PATCH 11/65] fix: compute encoded chunk statistics in the statistics
 type

---
 omniscidb/DataMgr/FixedLengthEncoder.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..a4232af 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,14 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                min = std::min(min, static_cast<T>(data[i]));
+                max = std::max(max, static_cast<T>(data[i]));
               }
             } else {
               nulls = true;
-- 
2.43.0


From a023585a1538d1ef443c072a54bac1ddc1f01c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:24 +0000
Subject: [PATCH 12/65] fix: accept full month names in dates

---
 omniscidb/Shared/DateTimeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/DateTimeParser.cpp b/omniscidb/Shared/DateTimeParser.cpp
index 33afc0e..25e6693 100644
--- a/omniscidb/Shared/DateTimeParser.cpp
+++ b/omniscidb/Shared/DateTimeParser.cpp
@@ -43,7 +43,7 @@ constexpr std::array<int, 12> month_prefixes{{int('j') << 16 | int('a') << 8 | i
                                               int('d') << 16 | int('e') << 8 | int('c')}};
 
 constexpr std::array<std::string_view, 13> month_suffixes{
-    {""
+    {"",
      "uary",
      "ruary",
      "ch",
-- 
2.43.0


From 0a8212169db6b6ce6b30088a5f7ed00117aa1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:24 +0000
Subject: [PATCH 13/65] fix: print dates outside 1970..2036 and negative
 timestamps with fractions correctly

---
 omniscidb/Utils/ExtractFromTime.h         |  1 +
 omniscidb/Utils/ExtractStringFromTime.cpp | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/omniscidb/Utils/ExtractFromTime.h b/omniscidb/Utils/ExtractFromTime.h
index b0473ad..ecf9070 100644
--- a/omniscidb/Utils/ExtractFromTime.h
+++ b/omniscidb/Utils/ExtractFromTime.h
@@ -72,6 +72,7 @@ static constexpr uint32_t kSecsJanToMar1900 = 5097600;
 constexpr unsigned MARJAN = 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30 + 31;
 constexpr unsigned JANMAR = 31 + 28;  // leap day handled separately
 
+extern "C" int64_t RUNTIME_EXPORT extract_year(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_month(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_day(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_hour(const int64_t timeval);
diff --git a/omniscidb/Utils/ExtractStringFromTime.cpp b/omniscidb/Utils/ExtractStringFromTime.cpp
index ffad9da..5b55e49 100644
--- a/omniscidb/Utils/ExtractStringFromTime.cpp
+++ b/omniscidb/Utils/ExtractStringFromTime.cpp
@@ -32,13 +32,13 @@ std::string getStrDayFromSeconds(const int64_t seconds_tstamp) {
 
 std::string getStrMonthFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_month_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_month(seconds_tstamp);
   return oss.str();
 }
 
 std::string getStrYearFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_year_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_year(seconds_tstamp);
   return oss.str();
 }
 
@@ -61,11 +61,11 @@ std::string getStrTimeFromSeconds(const int64_t seconds_tstamp) {
 std::string getStrTimeStampSecondsScaled(const int64_t tstamp,
                                          const int64_t seconds_scale) {
   std::ostringstream oss;
-  oss << getStrDateFromSeconds(tstamp / seconds_scale) << " "
-      << getStrTimeFromSeconds(tstamp / seconds_scale);
+  oss << getStrDateFromSeconds(floor_div(tstamp, seconds_scale)) << " "
+      << getStrTimeFromSeconds(floor_div(tstamp, seconds_scale));
   if (seconds_scale > 1) {
     oss << "." << std::setfill('0') << std::setw(log10(seconds_scale))
-        << tstamp % seconds_scale;
+        << unsigned_mod(tstamp, seconds_scale);
   }
   return oss.str();
 }
-- 
2.43.0


From ba082a5e953efb966d600ec1cc67317cf362de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:24 +0000
Subject: [PATCH 14/65] fix: detect overflow when scaling timestamps to a finer
 unit

---
 omniscidb/QueryEngine/DateTimeUtils.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index c4ea07b..3747f41 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -23,6 +23,7 @@
 
 #include <cstdint>
 #include <ctime>
+#include <limits>
 #include <map>
 #include <string>
 
@@ -205,12 +206,13 @@ constexpr inline int64_t get_datetime_scaled_epoch(const ScalingType direction,
                                                    const int32_t dimen) {
   switch (direction) {
     case ScaleUp: {
-      const auto scaled_epoch = epoch * get_timestamp_precision_scale(dimen);
-      if (epoch && epoch != scaled_epoch / get_timestamp_precision_scale(dimen)) {
+      const auto scale = get_timestamp_precision_scale(dimen);
+      if (epoch > std::numeric_limits<int64_t>::max() / scale ||
+          epoch < std::numeric_limits<int64_t>::min() / scale) {
         throw std::runtime_error(
             "Value Overflow/underflow detected while scaling DateTime precision.");
       }
-      return scaled_epoch;
+      return epoch * scale;
     }
     case ScaleDown:
       return epoch / get_timestamp_precision_scale(dimen);
@@ -244,12 +246,13 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
   auto old_scale = get_nanosecs_in_unit(old_unit);
   auto new_scale = get_nanosecs_in_unit(new_unit);
   if (old_scale > new_scale) {
-    auto scaled_epoch = epoch * (old_scale / new_scale);
-    if (epoch && epoch != scaled_epoch / (old_scale / new_scale)) {
+    const auto scale = old_scale / new_scale;
+    if (epoch > std::numeric_limits<int64_t>::max() / scale ||
+        epoch < std::numeric_limits<int64_t>::min() / scale) {
       throw std::runtime_error(
           "Value Overflow/underflow detected while scaling DateTime precision.");
     }
-    return scaled_epoch;
+    return epoch * scale;
   } else {
     return epoch / (new_scale / old_scale);
   }
-- 
2.43.0


From d9410671d6619bfb477b9f56ea57a83876e39afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 15/65] fix: do not read past the end of a LIKE pattern with an
 unclosed bracket

---
 omniscidb/Utils/StringLike.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 4d00bc5..5e43e95 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -198,7 +198,7 @@ DEVICE static LikeStatus string_like_match(const char* str,
         slen--;
         pplen--;
         const char* x;
-        for (x = pp + 1; *x != ']' && pplen > 0; x++, pplen--) {
+        for (x = pp + 1; pplen > 0 && *x != ']'; x++, pplen--) {
           ;
         }
         if (pplen <= 0) {
-- 
2.43.0


From a087727ff9f0c397089cadbbbffd8d8d1f26618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 16/65] fix: honour % and _ as LIKE escape characters

---
 omniscidb/Utils/StringLike.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 5e43e95..6a51c04 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -121,7 +121,7 @@ DEVICE static LikeStatus string_like_match(const char* str,
         if (*p == '%') {
           p++;
           plen--;
-        } else if (*p == '_') {
+        } else if (*p == '_' && *p != escape_char) {
           if (slen <= 0) {
             return kLIKE_ABORT;
           }
@@ -221,7 +221,7 @@ DEVICE static LikeStatus string_like_match(const char* str,
   if (slen > 0) {
     return kLIKE_FALSE;
   }
-  while (plen > 0 && *p == '%') {
+  while (plen > 0 && *p == '%' && *p != escape_char) {
     p++;
     plen--;
   }
-- 
2.43.0


From f8a93b505b3136775501d4edda39bf70f24a41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 17/65] fix: compare strings with embedded zero bytes by their
 full length

---
 omniscidb/Utils/StringLike.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 6a51c04..71afe71 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -277,8 +277,9 @@ extern "C" RUNTIME_EXPORT DEVICE int32_t StringCompare(const char* s1,
     s2_++;
   }
 
-  unsigned char c1 = (s1_ < s1 + s1_len) ? (*(unsigned char*)s1_) : 0;
-  unsigned char c2 = (s2_ < s2 + s2_len) ? (*(unsigned char*)s2_) : 0;
+  // A string that ends first is smaller than any longer string, even one with zero bytes.
+  int32_t c1 = (s1_ < s1 + s1_len) ? (*(unsigned char*)s1_) : -1;
+  int32_t c2 = (s2_ < s2 + s2_len) ? (*(unsigned char*)s2_) : -1;
 
   return c1 - c2;
 }
-- 
2.43.0


From b04accc2fb3ba312e92e5291b08ee61763186f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:18 +0000
Subject: [PATCH 18/65] fix: evaluate AND/OR with a null left operand when
 short-circuiting

---
 omniscidb/QueryEngine/LogicalIR.cpp | 40 ++++++-----------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/omniscidb/QueryEngine/LogicalIR.cpp b/omniscidb/QueryEngine/LogicalIR.cpp
index 7cb99bf..e637a56 100644
--- a/omniscidb/QueryEngine/LogicalIR.cpp
+++ b/omniscidb/QueryEngine/LogicalIR.cpp
@@ -231,23 +231,9 @@ llvm::Value* CodeGenerator::codegenLogicalShortCircuit(const hdk::ir::BinOper* b
       cgen_state_->context_, "rhs_bb", cgen_state_->current_func_);
   auto ret_bb = llvm::BasicBlock::Create(
       cgen_state_->context_, "ret_bb", cgen_state_->current_func_);
-  llvm::BasicBlock* nullcheck_ok_bb{nullptr};
-  llvm::BasicBlock* nullcheck_fail_bb{nullptr};
 
-  if (type->nullable()) {
-    // need lhs nullcheck before short circuiting
-    nullcheck_ok_bb = llvm::BasicBlock::Create(
-        cgen_state_->context_, "nullcheck_ok_bb", cgen_state_->current_func_);
-    nullcheck_fail_bb = llvm::BasicBlock::Create(
-        cgen_state_->context_, "nullcheck_fail_bb", cgen_state_->current_func_);
-    if (lhs_lv->getType()->isIntegerTy(1)) {
-      lhs_lv = cgen_state_->castToTypeIn(lhs_lv, 8);
-    }
-    auto lhs_nullcheck =
-        cgen_state_->ir_builder_.CreateICmpEQ(lhs_lv, cgen_state_->inlineIntNull(type));
-    cgen_state_->ir_builder_.CreateCondBr(
-        lhs_nullcheck, nullcheck_fail_bb, nullcheck_ok_bb);
-    cgen_state_->ir_builder_.SetInsertPoint(nullcheck_ok_bb);
+  if (type->nullable() && lhs_lv->getType()->isIntegerTy(1)) {
+    lhs_lv = cgen_state_->castToTypeIn(lhs_lv, 8);
   }
 
   auto sc_check_bb = cgen_state_->ir_builder_.GetInsertBlock();
@@ -265,29 +251,19 @@ llvm::Value* CodeGenerator::codegenLogicalShortCircuit(const hdk::ir::BinOper* b
   cgen_state_->ir_builder_.SetInsertPoint(rhs_bb);
   auto rhs_lv = codegen(rhs, true, co).front();
   if (type->nullable()) {
-    // need rhs nullcheck as well
+    // lhs didn't decide the result but it can be null
     if (rhs_lv->getType()->isIntegerTy(1)) {
       rhs_lv = cgen_state_->castToTypeIn(rhs_lv, 8);
     }
-    auto rhs_nullcheck =
-        cgen_state_->ir_builder_.CreateICmpEQ(rhs_lv, cgen_state_->inlineIntNull(type));
-    cgen_state_->ir_builder_.CreateCondBr(rhs_nullcheck, nullcheck_fail_bb, ret_bb);
-  } else {
-    cgen_state_->ir_builder_.CreateBr(ret_bb);
+    rhs_lv = cgen_state_->emitCall(
+        optype == hdk::ir::OpType::kOr ? "logical_or" : "logical_and",
+        {lhs_lv, rhs_lv, cgen_state_->inlineIntNull(type)});
   }
+  cgen_state_->ir_builder_.CreateBr(ret_bb);
   auto rhs_codegen_bb = cgen_state_->ir_builder_.GetInsertBlock();
 
-  if (type->nullable()) {
-    cgen_state_->ir_builder_.SetInsertPoint(nullcheck_fail_bb);
-    cgen_state_->ir_builder_.CreateBr(ret_bb);
-  }
-
   cgen_state_->ir_builder_.SetInsertPoint(ret_bb);
-  auto result_phi =
-      cgen_state_->ir_builder_.CreatePHI(lhs_lv->getType(), type->nullable() ? 3 : 2);
-  if (type->nullable()) {
-    result_phi->addIncoming(cgen_state_->inlineIntNull(type), nullcheck_fail_bb);
-  }
+  auto result_phi = cgen_state_->ir_builder_.CreatePHI(lhs_lv->getType(), 2);
   result_phi->addIncoming(cnst_lv, sc_check_bb);
   result_phi->addIncoming(rhs_lv, rhs_codegen_bb);
   return result_phi;
-- 
2.43.0


From aedcbc239bdf8ed8e29990cff4c7bc2b4107625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:18 +0000
Subject: [PATCH 19/65] fix: round casts of non-null timestamps before 1970 to
 a coarser unit down

---
 omniscidb/QueryEngine/CastIR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/CastIR.cpp b/omniscidb/QueryEngine/CastIR.cpp
index 3836b83..2e7de63 100644
--- a/omniscidb/QueryEngine/CastIR.cpp
+++ b/omniscidb/QueryEngine/CastIR.cpp
@@ -236,8 +236,9 @@ llvm::Value* CodeGenerator::codegenCastBetweenTimestamps(
                                      {ts_lv,
                                       cgen_state_->llInt(static_cast<int64_t>(scale)),
                                       cgen_state_->inlineIntNull(operand_type)})
-             : cgen_state_->ir_builder_.CreateSDiv(
-                   ts_lv, cgen_state_->llInt(static_cast<int64_t>(scale)));
+             : cgen_state_->emitCall(
+                   "floor_div_lhs",
+                   {ts_lv, cgen_state_->llInt(static_cast<int64_t>(scale))});
 }
 
 llvm::Value* CodeGenerator::codegenCastFromString(llvm::Value* operand_lv,
-- 
2.43.0


From 2b638352e8a65bbc494b4f4d8f4f084696e47698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:18 +0000
Subject: [PATCH 20/65] fix: do not fold operations on null constants

---
 omniscidb/QueryEngine/ExpressionRewrite.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRewrite.cpp b/omniscidb/QueryEngine/ExpressionRewrite.cpp
index 41bfd18..f576ec5 100644
--- a/omniscidb/QueryEngine/ExpressionRewrite.cpp
+++ b/omniscidb/QueryEngine/ExpressionRewrite.cpp
@@ -544,8 +544,8 @@ class ConstantFoldingVisitor : public hdk::ir::ExprRewriter {
     auto lhs_type = lhs->type();
     auto rhs_type = rhs->type();
 
-    if (const_lhs && const_rhs && lhs_type->id() == rhs_type->id() && lhs_type->size() &&
-        rhs_type->size()) {
+    if (const_lhs && const_rhs && !const_lhs->isNull() && !const_rhs->isNull() &&
+        lhs_type->id() == rhs_type->id() && lhs_type->size() && rhs_type->size()) {
       auto lhs_datum = const_lhs->value();
       auto rhs_datum = const_rhs->value();
       Datum result_datum = {};
@@ -636,7 +636,8 @@ class ConstantFoldingVisitor : public hdk::ir::ExprRewriter {
       }
     }
     // Convert fp division by a constant to multiplication by 1/constant
-    if (optype == hdk::ir::OpType::kDiv && const_rhs && rhs_type->isFloatingPoint()) {
+    if (optype == hdk::ir::OpType::kDiv && const_rhs && !const_rhs->isNull() &&
+        rhs_type->isFloatingPoint()) {
       auto rhs_datum = const_rhs->value();
       hdk::ir::ExprPtr recip_rhs = nullptr;
       if (rhs_type->isFp32()) {
-- 
2.43.0


From 5c0a06b44a806c116d3da6bfd5e293081e0da468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:18 +0000
Subject: [PATCH 21/65] fix: null modulo zero is null

---
 omniscidb/QueryEngine/ArithmeticIR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/QueryEngine/ArithmeticIR.cpp b/omniscidb/QueryEngine/ArithmeticIR.cpp
index 5ad023a..4de7e19 100644
--- a/omniscidb/QueryEngine/ArithmeticIR.cpp
+++ b/omniscidb/QueryEngine/ArithmeticIR.cpp
@@ -703,6 +703,9 @@ llvm::Value* CodeGenerator::codegenMod(llvm::Value* lhs_lv,
   // Generate control flow for division by zero error handling.
   auto mod_ok = llvm::BasicBlock::Create(
       cgen_state_->context_, "mod_ok", cgen_state_->current_func_);
+  if (!null_check_suffix.empty()) {
+    codegenSkipOverflowCheckForNull(lhs_lv, rhs_lv, mod_ok, type);
+  }
   auto mod_zero = llvm::BasicBlock::Create(
       cgen_state_->context_, "mod_zero", cgen_state_->current_func_);
   auto zero_const = llvm::ConstantInt::get(rhs_lv->getType(), 0, true);
-- 
2.43.0


From 184814b405d08fe6580150f251e9667cd358e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 22/65] fix: report overflow when a decimal or timestamp is
 cast to a narrower integer

---
 omniscidb/QueryEngine/CastIR.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/CastIR.cpp b/omniscidb/QueryEngine/CastIR.cpp
index 2e7de63..cd7cfdf 100644
--- a/omniscidb/QueryEngine/CastIR.cpp
+++ b/omniscidb/QueryEngine/CastIR.cpp
@@ -378,8 +378,7 @@ llvm::Value* CodeGenerator::codegenCastBetweenIntTypes(llvm::Value* operand_lv,
         method_name,
         {operand_lv, scale_lv, cgen_state_->llInt(inline_int_null_value(operand_type))});
   }
-  if (type->isInteger() && operand_type->isInteger() &&
-      operand_type->size() > type->size()) {
+  if (type->isInteger() && operand_type->canonicalSize() > type->canonicalSize()) {
     codegenCastBetweenIntTypesOverflowChecks(operand_lv, operand_type, type, 1);
   }
 
-- 
2.43.0


From 6c43aef4bed85b262b0ed26720570b5d4b0fd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:46 +0000
Subject: [PATCH 23/65] fix: guard the buffer pool index, epoch and segment
 lists with their mutexes

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 92f0e35..f799109 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -181,6 +181,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
@@ -532,6 +533,7 @@ size_t BufferMgr::getPageSize() {
 
 // return the size of the chunks in use in bytes
 size_t BufferMgr::getInUseSize() {
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   size_t in_use = 0;
   for (auto& segment_list : slab_segments_) {
     for (auto& segment : segment_list) {
@@ -720,10 +722,9 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
         auto buffer = buffer_it->second->buffer;
         CHECK(buffer);
         buffer->pin();
+        buffer_it->second->last_touched = buffer_epoch_++;
         sized_segs_lock.unlock();
 
-        buffer_it->second->last_touched = buffer_epoch_++;  // race
-
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
         if (buffer->size() < num_bytes) {
-- 
2.43.0


From 629541cd7a1eb2a62d7a6fa2a6cc8f85c377221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 24/65] fix: publish a pool segment only after its buffer is
 constructed and pinned

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index f799109..192131b 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -127,6 +127,7 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
 
   // chunk_page_size is just for recording dirty pages
   BufferList::iterator seg_it;
+  Buffer* buffer = nullptr;
   {
     std::lock_guard<std::mutex> lock(chunk_index_mutex_);
     CHECK(chunk_index_.find(chunk_key) == chunk_index_.end());
@@ -138,25 +139,23 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
     // need to do this before allocating Buffer because doing so could
     // change the segment used
     chunk_index_[chunk_key] = seg_it;
+    // The buffer is fully constructed and pinned before other threads can see its
+    // segment. It gets its memory below.
+    allocateBuffer(seg_it, actual_chunk_page_size, 0);
+    buffer = seg_it->buffer;
   }
-  // following should be safe outside the lock b/c first thing Buffer
-  // constructor does is pin (and its still in unsized segs at this point
-  // so can't be evicted)
+  // following should be safe outside the lock b/c the buffer is pinned (and its still
+  // in unsized segs at this point so can't be evicted)
   try {
-    allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
+    if (initial_size > 0) {
+      buffer->reserve(initial_size);
+    }
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
     deleteBuffer(chunk_key);
     throw;
   }
-  // chunk_index_[chunk_key]->buffer->pin();
-  std::lock_guard<std::mutex> lock(chunk_index_mutex_);
-  CHECK(initial_size == 0 || chunk_index_[chunk_key]->buffer->getMemoryPtr());
-  return chunk_index_[chunk_key]->buffer;
+  CHECK(initial_size == 0 || buffer->getMemoryPtr());
+  return buffer;
 }
 
 AbstractBuffer* BufferMgr::createZeroCopyBuffer(
-- 
2.43.0


From 8333ca130abba3cc30070713c002e40b99cabfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 25/65] fix: delete a pool buffer under both pool locks

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 192131b..9478957 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -614,15 +614,15 @@ bool BufferMgr::isBufferOnDevice(const ChunkKey& key) {
 /// This method throws a runtime_error when deleting a Chunk that does not exist.
 void BufferMgr::deleteBuffer(const ChunkKey& key, const bool) {
   // Note: purge is unused
-  std::unique_lock<std::mutex> chunk_index_lock(chunk_index_mutex_);
+  // Both locks are held so that the segment cannot be evicted in between.
+  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
+  std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
 
   // lookup the buffer for the Chunk in chunk_index_
   auto buffer_it = chunk_index_.find(key);
   CHECK(buffer_it != chunk_index_.end());
   auto seg_it = buffer_it->second;
   chunk_index_.erase(buffer_it);
-  chunk_index_lock.unlock();
-  std::lock_guard<std::mutex> sized_segs_lock(sized_segs_mutex_);
   if (seg_it->buffer) {
     delete seg_it->buffer;  // Delete Buffer for segment
     seg_it->buffer = 0;
-- 
2.43.0


From 7a0d118008ac5046b20f586ad1568d694b7f69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:26 +0000
Subject: [PATCH 26/65] fix: wait for a running fetch of the same chunk when a
 child pool asks for it

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 42 ++---------------------
 1 file changed, 3 insertions(+), 39 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 9478957..c20de44 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -790,45 +790,9 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
 void BufferMgr::fetchBuffer(const ChunkKey& key,
                             AbstractBuffer* dest_buffer,
                             const size_t num_bytes) {
-  std::unique_lock<std::mutex> sized_segs_lock(sized_segs_mutex_);
-  std::unique_lock<std::mutex> chunk_index_lock(chunk_index_mutex_);
-
-  // This method is only called by child BufferMgr which should guarantee
-  // we have no parallel calls for the same key. For that reason we don't
-  // use in_progress_buffer_cvs_ here.
-  auto buffer_it = chunk_index_.find(key);
-  bool found_buffer = buffer_it != chunk_index_.end();
-  chunk_index_lock.unlock();
-  AbstractBuffer* buffer;
-  if (!found_buffer) {
-    sized_segs_lock.unlock();
-    CHECK(parent_mgr_ != 0);
-    if (auto token = getZeroCopyBufferMemory(key, num_bytes)) {
-      buffer = createZeroCopyBuffer(key, std::move(token));
-    } else {
-      buffer = createBuffer(key, page_size_, num_bytes);  // will pin buffer
-      try {
-        parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (...) {
-        // Don't leave a pinned buffer without data in the pool.
-        deleteBuffer(key);
-        throw;
-      }
-    }
-  } else {
-    buffer = buffer_it->second->buffer;
-    buffer->pin();
-    sized_segs_lock.unlock();
-
-    if (num_bytes > buffer->size()) {
-      try {
-        parent_mgr_->fetchBuffer(key, buffer, num_bytes);
-      } catch (...) {
-        buffer->unPin();
-        throw;
-      }
-    }
-  }
+  // Several child pools and direct clients can ask for the same chunk at once. getBuffer
+  // makes all of them wait for a single fetch and returns the buffer pinned.
+  auto buffer = getBuffer(key, num_bytes);
   ScopeGuard unpin([buffer]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
 }
-- 
2.43.0


From 2db0b8f02998ea852270bcd51c4b0cfd6de05d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:22 +0000
Subject: [PATCH 27/65] fix: release the pin lock before a buffer deletes
 itself

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..1ec1495 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,10 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From 58ef21c58e1ba40a6bcd56bd104fc05d6f3ea151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:19 +0000
Subject: [PATCH 28/65] fix: lock the source dictionary when a union
 translation map reads its strings

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index b36355e..d0edb4a 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1532,7 +1532,7 @@ std::vector<int32_t> StringDictionary::buildUnionTranslationMap(
          source_string_id < static_cast<int32_t>(translated_ids.size());
          ++source_string_id) {
       if (translated_ids[source_string_id] == StringDictionary::INVALID_STR_ID) {
-        const auto source_string = getStringUnlocked(source_string_id);
+        const auto source_string = getString(source_string_id);
         const auto dest_string_id = dest->getOrAdd(source_string);
         translated_ids[source_string_id] = dest_string_id;
       }
-- 
2.43.0


From bf620d873c0569b0df96eb51e98b635ae7c2fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:30 +0000
Subject: [PATCH 29/65] fix: guard the cached copy of the dictionary strings
 with a mutex

---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 omniscidb/StringDictionary/StringDictionary.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index d0edb4a..9f3b4e6 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1088,6 +1088,7 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
   generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
                                : static_cast<int64_t>(entryCount());
+  std::lock_guard<std::mutex> cache_lock(strings_cache_mutex_);
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
     strings_cache_->reserve(entryCount());
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..045693c 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -25,6 +25,7 @@
 #include <functional>
 #include <future>
 #include <map>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <tuple>
@@ -277,6 +278,7 @@ class StringDictionary {
   mutable std::map<std::string, int32_t> equal_cache_;
   mutable DictionaryCache<std::string, compare_cache_value_t> compare_cache_;
   mutable std::shared_ptr<std::vector<std::string>> strings_cache_;
+  mutable std::mutex strings_cache_mutex_;
 
   char* CANARY_BUFFER{nullptr};
   size_t canary_buffer_size = 0;
-- 
2.43.0


From 296a1406b7282f3fd5a44a7caf8724025f206d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:30 +0000
Subject: [PATCH 30/65] fix: lock a nested dictionary before its base when
 building a translation map

---
 omniscidb/StringDictionary/StringDictionary.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 9f3b4e6..cbfd5ba 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1586,7 +1586,14 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
   if (source_dict == dest_dict) {
     throw std::runtime_error("Cannot translate between a string dictionary and itself.");
   }
-  const bool this_dict_is_locked_first = source_dict < dest_dict;
+  // Searches lock a nested dictionary before its base, so use the same order if the
+  // destination is built on top of the source.
+  bool dest_is_nested_in_source = false;
+  for (auto base = dest_dict->base_dict_.get(); base; base = base->base_dict_.get()) {
+    dest_is_nested_in_source |= base == source_dict;
+  }
+  const bool this_dict_is_locked_first =
+      !dest_is_nested_in_source && source_dict < dest_dict;
   mapd_shared_lock<mapd_shared_mutex> first_read_lock(
       this_dict_is_locked_first ? source_dict->rw_mutex_ : dest_dict->rw_mutex_);
   mapd_shared_lock<mapd_shared_mutex> second_read_lock(
-- 
2.43.0


From 48556a8c97b2b30476dfb5505cd642ae90d3050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 31/65] fix: interpolate quantiles without overflowing the
 difference of integers

---
 omniscidb/Shared/quantile.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 1e8c778..cf2e163 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -331,7 +331,11 @@ class Quantile {
       double diff_coeff =
           interpolation == hdk::ir::Interpolation::kMidpoint ? 0.5 : pos - floor(pos);
       auto right_value = *right_iter;
-      res = static_cast<ResultType>(left_value + (right_value - left_value) * diff_coeff);
+      // The difference of integers doesn't necessarily fit their type.
+      res = static_cast<ResultType>(
+          left_value +
+          (static_cast<double>(right_value) - static_cast<double>(left_value)) *
+              diff_coeff);
     } else {
       res = static_cast<ResultType>(left_value);
     }
-- 
2.43.0


From 7660ed2b0b0381d60ef806a5ae4bca6cef60ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 32/65] fix: compute products for stddev and corr in FP64
 instead of the argument type

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index bc368f3..f8cd2e9 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -144,8 +144,9 @@ class StdDevAggregate final : public CompoundAggregate {
       : CompoundAggregate(node, agg, field, config) {}
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
-    // Add arg * arg column.
-    BuilderExpr arg(&builder_, agg_->argShared());
+    // Add arg * arg column. Use FP64 because a product of integers (or decimals)
+    // doesn't necessarily fit the argument type.
+    auto arg = BuilderExpr(&builder_, agg_->argShared()).cast(ctx_.fp64());
     quad_arg_index_ = static_cast<unsigned>(exprs.size());
     exprs.emplace_back(arg.mul(arg).expr());
     fields.emplace_back(field_ + "__stddev_quad_arg_" + std::to_string(quad_arg_index_));
@@ -182,8 +183,10 @@ class StdDevAggregate final : public CompoundAggregate {
         builder_.ifThenElse(cnt_ref.eq(0), builder_.nullCst(cnt_ref.type()), cnt_ref);
     auto cnt_m_1_or_null = builder_.ifThenElse(
         cnt_ref.eq(1), builder_.nullCst(cnt_ref.type()), cnt_ref.sub(1));
+    // Move to FP64 before the multiplication to avoid overflows.
+    auto sum_ref_fp = sum_ref.cast(ctx_.fp64());
     auto stddev = quad_sum_ref.cast(ctx_.fp64())
-                      .sub(sum_ref.mul(sum_ref).cast(ctx_.fp64()).div(cnt_or_null))
+                      .sub(sum_ref_fp.mul(sum_ref_fp).div(cnt_or_null))
                       .div(cnt_m_1_or_null)
                       .pow(0.5);
     reduce_proj_exprs.emplace_back(stddev.expr());
@@ -207,9 +210,10 @@ class CorrAggregate final : public CompoundAggregate {
       : CompoundAggregate(node, agg, field, config) {}
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
-    // Add x * x, y * y, x * y columns
-    BuilderExpr x_arg(&builder_, agg_->argShared());
-    BuilderExpr y_arg(&builder_, agg_->arg1Shared());
+    // Add x * x, y * y, x * y columns. Use FP64 because a product of integers (or
+    // decimals) doesn't necessarily fit the arguments type.
+    auto x_arg = BuilderExpr(&builder_, agg_->argShared()).cast(ctx_.fp64());
+    auto y_arg = BuilderExpr(&builder_, agg_->arg1Shared()).cast(ctx_.fp64());
     first_mul_arg_index_ = static_cast<unsigned>(exprs.size());
     fields.emplace_back(field_ + "__corr_x_mul_x_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(x_arg).expr());
-- 
2.43.0


From a859da4d6a41d3419273645e1ffc8c006098b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 33/65] fix: make a null literal of a non-nullable type
 nullable

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index bdf2b45..a21b184 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -3110,7 +3110,7 @@ BuilderExpr QueryBuilder::nullCst() const {
 }
 
 BuilderExpr QueryBuilder::nullCst(const Type* type) const {
-  auto cst_expr = std::make_shared<Constant>(type, true, Datum{});
+  auto cst_expr = std::make_shared<Constant>(type->withNullable(true), true, Datum{});
   return {this, cst_expr};
 }
 
-- 
2.43.0


From 903196fdd1dead254eceedfbf5f009dc3a7d0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 34/65] fix: use 8-byte slots for approx_count_dist with 32-bit
 counts

---
 omniscidb/Shared/TargetInfo.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/omniscidb/Shared/TargetInfo.h b/omniscidb/Shared/TargetInfo.h
index 8b680e8..8e155b5 100644
--- a/omniscidb/Shared/TargetInfo.h
+++ b/omniscidb/Shared/TargetInfo.h
@@ -145,11 +145,16 @@ inline TargetInfo get_target_info(const PointerType target_expr,
                               ? agg_expr->arg1()->as<hdk::ir::Constant>()->fpVal()
                               : 0.0;
   hdk::ir::Interpolation interpolation = agg_expr->interpolation();
+  auto agg_res_type = agg_expr->type();
+  if (agg_type == hdk::ir::AggType::kCount) {
+    agg_res_type = ctx.integer((is_distinct || bigint_count) ? 8 : 4, nullable);
+  } else if (agg_type == hdk::ir::AggType::kApproxCountDistinct) {
+    // The slot holds a pointer to the set, same as for COUNT(DISTINCT).
+    agg_res_type = ctx.int64(nullable);
+  }
   return {true,
           agg_expr->aggType(),
-          agg_type == hdk::ir::AggType::kCount
-              ? ctx.integer((is_distinct || bigint_count) ? 8 : 4, nullable)
-              : agg_expr->type(),
+          agg_res_type,
           agg_arg_type,
           agg_type == hdk::ir::AggType::kCount &&
                   (agg_arg_type->isString() || agg_arg_type->isArray())
-- 
2.43.0


From 6a84f8cb436a0cb85d1d0bdf743f1915d52cebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 35/65] fix: don't count NULL in approx_count_dist

---
 omniscidb/QueryEngine/RowFuncBuilder.cpp | 25 ++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/omniscidb/QueryEngine/RowFuncBuilder.cpp b/omniscidb/QueryEngine/RowFuncBuilder.cpp
index 29162cf..7344eda 100644
--- a/omniscidb/QueryEngine/RowFuncBuilder.cpp
+++ b/omniscidb/QueryEngine/RowFuncBuilder.cpp
@@ -1234,6 +1234,27 @@ void RowFuncBuilder::codegenCountDistinct(const size_t target_idx,
   CHECK(count_distinct_descriptor.impl_type_ != CountDistinctImplType::Invalid);
   if (agg_info.agg_kind == hdk::ir::AggType::kApproxCountDistinct) {
     CHECK(count_distinct_descriptor.impl_type_ == CountDistinctImplType::Bitmap);
+    auto* cs = executor_->cgen_state_.get();
+    auto& irb = cs->ir_builder_;
+    llvm::BasicBlock* skip{nullptr};
+    if (agg_info.skip_null_val) {
+      // NULL is not a value to count. Integer NULL is already converted to the
+      // aggregate type.
+      auto* const null_lv = irb.CreateBitCast(
+          cs->castToTypeIn(arg_type->isFloatingPoint()
+                               ? static_cast<llvm::Value*>(cs->inlineFpNull(arg_type))
+                               : static_cast<llvm::Value*>(
+                                     cs->inlineIntNull(agg_info.type)),
+                           64),
+          get_int_type(64, cs->context_));
+      auto* const skip_cond = irb.CreateICmpEQ(agg_args.back(), null_lv);
+      auto* calc =
+          llvm::BasicBlock::Create(cs->context_, "calc_approx_count_dist", cs->current_func_);
+      skip =
+          llvm::BasicBlock::Create(cs->context_, "skip_approx_count_dist", cs->current_func_);
+      irb.CreateCondBr(skip_cond, skip, calc);
+      irb.SetInsertPoint(calc);
+    }
     agg_args.push_back(LL_INT(int32_t(count_distinct_descriptor.bitmap_sz_bits)));
     if (device_type == ExecutorDeviceType::GPU) {
       const auto base_dev_addr = getAdditionalLiteral(-1);
@@ -1244,6 +1265,10 @@ void RowFuncBuilder::codegenCountDistinct(const size_t target_idx,
     } else {
       emitCall("agg_approximate_count_distinct", agg_args);
     }
+    if (skip) {
+      irb.CreateBr(skip);
+      irb.SetInsertPoint(skip);
+    }
     return;
   }
   std::string agg_fname{"agg_count_distinct"};
-- 
2.43.0


From 27793b3aa830311c48531aca8906bd00d3f1abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 36/65] fix: build top-k and quantile results for an aggregate
 over an empty input

---
 omniscidb/QueryEngine/Execute.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 156ca07..dee2381 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -2527,6 +2527,7 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
                                   std::vector<int64_t>& entry,
                                   const std::vector<const hdk::ir::Expr*>& target_exprs,
                                   const QueryMemoryDescriptor& query_mem_desc,
+                                  RowSetMemoryOwner* row_set_mem_owner,
                                   bool bigint_count) {
   for (size_t target_idx = 0; target_idx < target_exprs.size(); ++target_idx) {
     const auto target_expr = target_exprs[target_idx];
@@ -2548,6 +2549,25 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
       } else {
         entry.push_back(inline_null_val(agg_info.type, float_argument_input));
       }
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
+      entry.push_back(reinterpret_cast<int64_t>(row_set_mem_owner->quantiles(1)));
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kTopK) {
+      // Empty heap is filled with NULLs.
+      auto elem_type = agg_info.agg_arg_type->canonicalize();
+      const size_t elem_size = elem_type->size();
+      const size_t elem_count = agg_info.topk_inline_buffer
+                                    ? sizeof(int64_t) / elem_size
+                                    : std::abs(agg_info.topk_param);
+      const auto null_val = inline_null_val(elem_type, true);
+      int64_t slot_val = 0;
+      auto heap = agg_info.topk_inline_buffer
+                      ? reinterpret_cast<int8_t*>(&slot_val)
+                      : row_set_mem_owner->topKBuffer(elem_count * elem_size);
+      for (size_t i = 0; i < elem_count; ++i) {
+        memcpy(heap + i * elem_size, &null_val, elem_size);
+      }
+      entry.push_back(agg_info.topk_inline_buffer ? slot_val
+                                                  : reinterpret_cast<int64_t>(heap));
     } else {
       entry.push_back(inline_null_val(agg_info.type, float_argument_input));
     }
@@ -2572,7 +2592,8 @@ ResultSetPtr build_row_for_empty_input(
                                               agg_expr->aggType(),
                                               agg_expr->arg()->withType(arg_type),
                                               agg_expr->isDistinct(),
-                                              agg_expr->arg1Shared());
+                                              agg_expr->arg1Shared(),
+                                              agg_expr->interpolation());
     } else {
       target_expr_copy = agg_expr->withType(agg_expr->type()->withNullable(true));
     }
@@ -2581,14 +2602,15 @@ ResultSetPtr build_row_for_empty_input(
   }
   std::vector<TargetInfo> target_infos;
   std::vector<int64_t> entry;
+  CHECK(executor);
+  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
+  CHECK(row_set_mem_owner);
   fill_entries_for_empty_input(target_infos,
                                entry,
                                target_exprs,
                                query_mem_desc,
+                               row_set_mem_owner.get(),
                                executor->getConfig().exec.group_by.bigint_count);
-  CHECK(executor);
-  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
-  CHECK(row_set_mem_owner);
   auto rs = std::make_shared<ResultSet>(target_infos,
                                         device_type,
                                         query_mem_desc,
@@ -2598,6 +2620,7 @@ ResultSetPtr build_row_for_empty_input(
                                         executor->gridSize());
   rs->allocateStorage();
   rs->fillOneEntry(entry);
+  rs->finalizeAggregates();
   return rs;
 }
 
-- 
2.43.0


From f9a6f073fbfc29db014573d39f7c8de296e784ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 37/65] fix: joining with a table whose keys are all NULL
 aborted

---
 .../QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
index 8d45b12..6ff8eee 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
@@ -1142,6 +1142,10 @@ void fill_one_to_many_hash_table_impl(int32_t* buff,
                                       COUNT_MATCHES_LAUNCH_FUNCTOR count_matches_func,
                                       FILL_ROW_IDS_LAUNCH_FUNCTOR fill_row_ids_func) {
   auto timer = DEBUG_TIMER(__func__);
+  if (!hash_entry_count) {
+    // The key range is empty when all keys are NULL, there is nothing to fill then.
+    return;
+  }
   int32_t* pos_buff = buff;
   int32_t* count_buff = buff + hash_entry_count;
   memset(count_buff, 0, hash_entry_count * sizeof(int32_t));
-- 
2.43.0


From 21fb70aa7f8417e11628f11bd8d8d495db053d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:52 +0000
Subject: [PATCH 38/65] fix: restore casts when a composite join condition is
 evaluated without a hash table

---
 omniscidb/QueryEngine/CompareIR.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omniscidb/QueryEngine/CompareIR.cpp b/omniscidb/QueryEngine/CompareIR.cpp
index 481ec1f..db0c869 100644
--- a/omniscidb/QueryEngine/CompareIR.cpp
+++ b/omniscidb/QueryEngine/CompareIR.cpp
@@ -143,12 +143,14 @@ std::shared_ptr<const hdk::ir::BinOper> lower_bw_eq(const hdk::ir::BinOper* bw_e
 
 std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
                                                 const hdk::ir::ExprPtr& rhs,
-                                                hdk::ir::OpType optype) {
+                                                hdk::ir::OpType optype,
+                                                const Executor* executor) {
   CHECK(hdk::ir::isEquivalence(optype));
   // Sides of a tuple equality are stripped of cast operators to simplify the logic
   // in the hash table construction algorithm. Add them back here.
   auto eq_oper = std::dynamic_pointer_cast<const hdk::ir::BinOper>(
-      Analyzer::normalizeOperExpr(optype, hdk::ir::Qualifier::kOne, lhs, rhs));
+      Analyzer::normalizeOperExpr(
+          optype, hdk::ir::Qualifier::kOne, lhs, rhs, executor));
   CHECK(eq_oper);
   return optype == hdk::ir::OpType::kBwEq ? lower_bw_eq(eq_oper.get()) : eq_oper;
 }
@@ -156,7 +158,8 @@ std::shared_ptr<const hdk::ir::BinOper> make_eq(const hdk::ir::ExprPtr& lhs,
 // Convert a column tuple equality expression back to a conjunction of comparisons
 // so that it can be handled by the regular code generation methods.
 std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
-    const hdk::ir::BinOper* multicol_compare) {
+    const hdk::ir::BinOper* multicol_compare,
+    const Executor* executor) {
   const auto left_tuple_expr =
       dynamic_cast<const hdk::ir::ExpressionTuple*>(multicol_compare->leftOperand());
   const auto right_tuple_expr =
@@ -166,9 +169,10 @@ std::shared_ptr<const hdk::ir::BinOper> lower_multicol_compare(
   const auto& right_tuple = right_tuple_expr->tuple();
   CHECK_EQ(left_tuple.size(), right_tuple.size());
   CHECK_GT(left_tuple.size(), size_t(1));
-  auto acc = make_eq(left_tuple.front(), right_tuple.front(), multicol_compare->opType());
+  auto acc = make_eq(
+      left_tuple.front(), right_tuple.front(), multicol_compare->opType(), executor);
   for (size_t i = 1; i < left_tuple.size(); ++i) {
-    auto crt = make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType());
+    auto crt = make_eq(left_tuple[i], right_tuple[i], multicol_compare->opType(), executor);
     const bool nullable = acc->type()->nullable() || crt->type()->nullable();
     acc = hdk::ir::makeExpr<hdk::ir::BinOper>(acc->type()->ctx().boolean(nullable),
                                               false,
@@ -232,7 +236,7 @@ llvm::Value* CodeGenerator::codegenCmp(const hdk::ir::BinOper* bin_oper,
   const auto rhs = bin_oper->rightOperand();
   if (dynamic_cast<const hdk::ir::ExpressionTuple*>(lhs)) {
     CHECK(dynamic_cast<const hdk::ir::ExpressionTuple*>(rhs));
-    const auto lowered = lower_multicol_compare(bin_oper);
+    const auto lowered = lower_multicol_compare(bin_oper, executor());
     const auto lowered_lvs = codegen(lowered.get(), true, co);
     CHECK_EQ(size_t(1), lowered_lvs.size());
     return lowered_lvs.front();
-- 
2.43.0


From a3038b9e64ba23f05a20a6209f5e8981b664deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 39/65] fix: merge outer join columns from the block their code
 ends in

---
 omniscidb/QueryEngine/ColumnIR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnIR.cpp b/omniscidb/QueryEngine/ColumnIR.cpp
index 9eb75dc..809a4f2 100644
--- a/omniscidb/QueryEngine/ColumnIR.cpp
+++ b/omniscidb/QueryEngine/ColumnIR.cpp
@@ -353,6 +353,8 @@ std::vector<llvm::Value*> CodeGenerator::codegenOuterJoinNullPlaceholder(
   cgen_state_->ir_builder_.SetInsertPoint(outer_join_args_bb);
   Executor::FetchCacheAnchor anchor(cgen_state_);
   const auto orig_lvs = codegenColVar(col_var, fetch_column, true, co);
+  // The column code might be split into several blocks (e.g. by a cast).
+  const auto orig_lvs_bb = cgen_state_->ir_builder_.GetInsertBlock();
   cgen_state_->ir_builder_.CreateBr(phi_bb);
   cgen_state_->ir_builder_.SetInsertPoint(outer_join_nulls_bb);
   auto null_type = col_var->type();
@@ -374,7 +376,7 @@ std::vector<llvm::Value*> CodeGenerator::codegenOuterJoinNullPlaceholder(
     const auto target_type = orig_lvs[i]->getType();
     CHECK_EQ(target_type, null_target_lvs[i]->getType());
     auto target_phi = cgen_state_->ir_builder_.CreatePHI(target_type, 2);
-    target_phi->addIncoming(orig_lvs[i], outer_join_args_bb);
+    target_phi->addIncoming(orig_lvs[i], orig_lvs_bb);
     target_phi->addIncoming(null_target_lvs[i], outer_join_nulls_bb);
     target_lvs.push_back(target_phi);
   }
-- 
2.43.0


From 58390b76a6fa92673dcb1a4f39958438fa4ee8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 40/65] fix: do not look past the last chunk when a quantile
 iterator reaches the end

---
 omniscidb/Shared/quantile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index cf2e163..845ccb9 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -73,7 +73,8 @@ class ChunkedArray {
       if (i < 0) {
         operator-=(-i);
       } else {
-        while (true) {
+        // There is no chunk to look at when the end of the last one is reached.
+        while (i) {
           int64_t rem = int64_t((*chunks_)[chunk_idx_].max_elems - chunk_offs_);
           if (rem > i) {
             chunk_offs_ += i;
-- 
2.43.0


From 50e7e15b6e6658068f6fa8311401d474284dca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 41/65] fix: use the whole sum of an extremal singleton
 neighbour in the t-digest slope

---
 omniscidb/Shared/approx_quantile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/approx_quantile.h b/omniscidb/Shared/approx_quantile.h
index 5d8b885..7b634fb 100644
--- a/omniscidb/Shared/approx_quantile.h
+++ b/omniscidb/Shared/approx_quantile.h
@@ -831,10 +831,11 @@ DEVICE RealType TDigest<RealType, IndexType>::slope(IndexType idx1, IndexType id
     bool const max2 = idx2 == M - 1;  // idx2 is the max centroid
     RealType const n1 = static_cast<RealType>(centroids_.counts_[idx1] - min1 - max1);
     RealType const s1 = centroids_.sums_[idx1] - (min1 ? min() : max1 ? max() : 0);
-    RealType const s2 = centroids_.sums_[idx2] - (min2 ? min() : max2 ? max() : 0);
     if (isSingleton(centroids_.counts_.begin() + idx2)) {
+      RealType const s2 = centroids_.sums_[idx2];  // its only value, even if min or max
       return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - s1) / (n1 * n1);
     } else {
+      RealType const s2 = centroids_.sums_[idx2] - (min2 ? min() : max2 ? max() : 0);
       RealType const n2 = static_cast<RealType>(centroids_.counts_[idx2] - min2 - max2);
       return (idx1 < idx2 ? 2 : -2) * (n1 * s2 - n2 * s1) / (n1 * n2 * (n1 + n2));
     }
-- 
2.43.0


From 53a6281826333fc5825cac2cd8d0f16617583ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:21 +0000
Subject: [PATCH 42/65] fix: find the fragment of the first row of a fragment
 and of any row of the first one

get_frag_id_and_local_idx() ignored fragment 0 and compared the offset of a
fragment with < instead of <=, so a lazily fetched column whose fragments have
different sizes could not be read (a failed CHECK) at those rows.
---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..ac7a867 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -856,10 +856,10 @@ inline std::pair<int64_t, int64_t> get_frag_id_and_local_idx(
     const size_t tab_or_col_idx,
     const int64_t global_idx) {
   CHECK_GE(global_idx, int64_t(0));
-  for (int64_t frag_id = frag_offsets.size() - 1; frag_id > 0; --frag_id) {
+  for (int64_t frag_id = frag_offsets.size() - 1; frag_id >= 0; --frag_id) {
     CHECK_LT(tab_or_col_idx, frag_offsets[frag_id].size());
     const auto frag_off = static_cast<int64_t>(frag_offsets[frag_id][tab_or_col_idx]);
-    if (frag_off < global_idx) {
+    if (frag_off <= global_idx) {
       return {frag_id, global_idx - frag_off};
     }
   }
-- 
2.43.0


From 9b39553b689a4ca76a7ed08bab5df06d1b5aaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:20 +0000
Subject: [PATCH 43/65] fix: round timestamps before 1970 down when a literal
 is cast to a coarser unit

---
 omniscidb/QueryEngine/DateTimeUtils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index 3747f41..1d9015d 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -254,7 +254,9 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
     }
     return epoch * scale;
   } else {
-    return epoch / (new_scale / old_scale);
+    // Round down, also for moments before 1970, as casts of columns do.
+    const auto scale = new_scale / old_scale;
+    return epoch / scale - (epoch % scale < 0);
   }
 }
 
-- 
2.43.0


From 39d71c1b7e98e6fa1bfccb81c776afa6593f964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:20 +0000
Subject: [PATCH 44/65] fix: copy the element type when an array or dictionary
 type is copied to another context

---
 omniscidb/IR/Context.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..f3eae10 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -294,19 +294,20 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
-- 
2.43.0


From cef0c18cf9bd02ba0176f90767713c0f5a4e0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:20 +0000
Subject: [PATCH 45/65] fix: do not read the id of a dictionary literal as a
 string pointer when hashing it

---
 omniscidb/IR/Datum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..63f1fcd 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -405,6 +405,7 @@ size_t hash(Datum datum, const hdk::ir::Type* type) {
       break;
     case hdk::ir::Type::kExtDictionary:
       boost::hash_combine(res, datum.intval);
+      break;
     case hdk::ir::Type::kVarChar:
     case hdk::ir::Type::kText:
       if (datum.stringval) {
-- 
2.43.0


From 8f765f3f626693904a6e8619eb3e0323934951b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 46/65] fix: columns of different databases are not equal

---
 omniscidb/IR/Expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..2d5fa3f 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -976,8 +976,8 @@ bool ColumnVar::operator==(const Expr& rhs) const {
   }
   const ColumnVar& rhs_cv = dynamic_cast<const ColumnVar&>(rhs);
   if (rte_idx_ != -1) {
-    return (tableId() == rhs_cv.tableId()) && (columnId() == rhs_cv.columnId()) &&
-           (rte_idx_ == rhs_cv.rteIdx());
+    return (dbId() == rhs_cv.dbId()) && (tableId() == rhs_cv.tableId()) &&
+           (columnId() == rhs_cv.columnId()) && (rte_idx_ == rhs_cv.rteIdx());
   }
   const Var* v = dynamic_cast<const Var*>(this);
   if (v == nullptr) {
-- 
2.43.0


From 67c6bf0a449f30a12a7b0b420f9e1cfdfe5274c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 47/65] fix: casts to different types are not equal

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 2d5fa3f..ee4e9d0 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1021,7 +1021,8 @@ bool UOper::operator==(const Expr& rhs) const {
     return false;
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
-  return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
+  return op_type_ == rhs_uo.opType() && type_->equal(rhs_uo.type()) &&
+         *operand_ == *rhs_uo.operand() &&
          is_dict_intersection_ == rhs_uo.is_dict_intersection_;
 }
 
-- 
2.43.0


From 4a58c0cafdf9f8161661cc6b827c91b0f14db333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 48/65] fix: comparisons with different qualifiers are not
 equal

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index ee4e9d0..59d733d 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1031,7 +1031,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return op_type_ == rhs_bo.opType() && qualifier_ == rhs_bo.qualifier() &&
+         *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
-- 
2.43.0


From 74c5bff5beea33ebb2e62c6b1882adcde000af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 49/65] fix: aggregates with different second arguments are not
 equal

---
 omniscidb/IR/Expr.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 59d733d..16e4e92 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1200,13 +1200,10 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
-  if (arg_.get() == rhs_ae.arg()) {
-    return true;
-  }
-  if (arg_ == nullptr || rhs_ae.arg() == nullptr) {
-    return false;
-  }
-  return *arg_ == *rhs_ae.arg();
+  auto args_equal = [](const Expr* lhs, const Expr* rhs) {
+    return lhs == rhs || (lhs && rhs && *lhs == *rhs);
+  };
+  return args_equal(arg(), rhs_ae.arg()) && args_equal(arg1(), rhs_ae.arg1());
 }
 
 bool CaseExpr::operator==(const Expr& rhs) const {
-- 
2.43.0


From d30f11192a87c4178207c2091c4491f33ac532dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:30 +0000
Subject: [PATCH 50/65] fix: window functions with different orderings are not
 equal

---
 omniscidb/IR/Expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 16e4e92..8b4caea 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1278,7 +1278,15 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   return exprsEqual(args_, rhs_window->args_) &&
          exprsEqual(partition_keys_, rhs_window->partition_keys_) &&
-         exprsEqual(order_keys_, rhs_window->order_keys_);
+         exprsEqual(order_keys_, rhs_window->order_keys_) &&
+         std::equal(collation_.begin(),
+                    collation_.end(),
+                    rhs_window->collation_.begin(),
+                    rhs_window->collation_.end(),
+                    [](const OrderEntry& lhs, const OrderEntry& rhs) {
+                      return lhs.tle_no == rhs.tle_no && lhs.is_desc == rhs.is_desc &&
+                             lhs.nulls_first == rhs.nulls_first;
+                    });
 }
 
 bool ArrayExpr::operator==(Expr const& rhs) const {
-- 
2.43.0


From bdd506ff2c35c92ff1cc8e1a03a178ffdfb66737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:31 +0000
Subject: [PATCH 51/65] fix: compare the lengths of array expressions

---
 omniscidb/IR/Expr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 8b4caea..4a682fb 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1294,6 +1294,9 @@ bool ArrayExpr::operator==(Expr const& rhs) const {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
+  if (contained_expressions_.size() != casted_rhs.contained_expressions_.size()) {
+    return false;
+  }
   for (unsigned i = 0; i < contained_expressions_.size(); i++) {
     auto& lhs_expr = contained_expressions_[i];
     auto& rhs_expr = casted_rhs.contained_expressions_[i];
-- 
2.43.0


From ed52ad23ff2f1fc18532f6642091c06b6297254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:31 +0000
Subject: [PATCH 52/65] fix: IN subqueries with different arguments are not
 equal

---
 omniscidb/IR/Expr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.h b/omniscidb/IR/Expr.h
index 3b83480..ed7d5eb 100644
--- a/omniscidb/IR/Expr.h
+++ b/omniscidb/IR/Expr.h
@@ -502,7 +502,7 @@ class InSubquery : public Expr {
 
   bool operator==(const Expr& rhs) const override {
     const InSubquery* rhsp = dynamic_cast<const InSubquery*>(&rhs);
-    return rhsp && node_ == rhsp->node_;
+    return rhsp && node_ == rhsp->node_ && *arg_ == *rhsp->arg_;
   }
 
   std::string toString() const override;
-- 
2.43.0


From b5402b99b43f79bc7873cc8b0c767eb666a42710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:15 +0000
Subject: [PATCH 53/65] fix: print all digits of decimal literals

---
 omniscidb/IR/Datum.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 63f1fcd..9b5a36e 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -435,11 +435,17 @@ std::string DatumToString(Datum d, const hdk::ir::Type* type) {
     case hdk::ir::Type::kDecimal: {
       CHECK_EQ(type->size(), 8);
       auto scale = type->as<hdk::ir::DecimalType>()->scale();
-      double v = (double)d.bigintval / pow(10, scale);
-      int size = snprintf(buf, buf_size, "%.*f", scale, v);
-      CHECK_LE(0, size) << v << ' ' << type->toString();
-      CHECK_LT(size_t(size), buf_size) << v << ' ' << type->toString();
-      return buf;
+      // Print the digits rather than a double, which holds only 15 of them.
+      const bool is_negative = d.bigintval < 0;
+      auto digits = std::to_string(is_negative ? -static_cast<uint64_t>(d.bigintval)
+                                               : static_cast<uint64_t>(d.bigintval));
+      if (scale > 0) {
+        if (digits.size() <= static_cast<size_t>(scale)) {
+          digits.insert(0, scale + 1 - digits.size(), '0');
+        }
+        digits.insert(digits.size() - scale, 1, '.');
+      }
+      return is_negative ? "-" + digits : digits;
     }
     case hdk::ir::Type::kInteger:
       switch (type->size()) {
-- 
2.43.0


From fe1298bb221f31f34aaf3d08f59f7a890a05531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:22 +0000
Subject: [PATCH 54/65] fix: refuse malformed and out-of-range decimal texts
 and read long ones exactly

---
 omniscidb/IR/Datum.cpp | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 9b5a36e..faab100 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -76,11 +76,17 @@ int64_t convert_decimal_value_to_scale_internal(const int64_t decimal_value,
 }
 }  // namespace
 
-int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
+int64_t parse_numeric(std::string_view s, const hdk::ir::Type* type) {
   // if we are given a dimension, first parse to the maximum precision of the string
   // and then convert to the correct size
   auto dtype = type->as<hdk::ir::DecimalType>();
   CHECK(dtype);
+  while (!s.empty() && std::isspace(static_cast<unsigned char>(s.front()))) {
+    s.remove_prefix(1);
+  }
+  while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) {
+    s.remove_suffix(1);
+  }
   size_t dot = s.find_first_of('.', 0);
   std::string before_dot;
   std::string after_dot;
@@ -90,32 +96,41 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     after_dot = s.substr(dot + 1);
   } else {
     before_dot = s;
-    after_dot = "0";
   }
-  const bool is_negative = before_dot.find_first_of('-', 0) != std::string::npos;
-  const int64_t sign = is_negative ? -1 : 1;
-  int64_t result;
-  result = std::abs(std::stoll(before_dot));
+  // std::stoll stops at the first unexpected character, so refuse those here.
+  auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+  if (!std::all_of(before_dot.begin() + (before_dot.find_first_of("+-") == 0),
+                   before_dot.end(),
+                   is_digit) ||
+      !std::all_of(after_dot.begin(), after_dot.end(), is_digit)) {
+    throw std::invalid_argument("Invalid decimal " + std::string(s));
+  }
+  const int64_t sign = before_dot.find_first_of('-') == 0 ? -1 : 1;
+  if (before_dot.find_first_of("+-") == 0) {
+    before_dot.erase(0, 1);
+  }
+  int64_t result = std::stoll(before_dot);
   int64_t fraction = 0;
-  const size_t before_dot_digits = before_dot.length() - (is_negative ? 1 : 0);
+  const size_t before_dot_digits = before_dot.length();
 
   constexpr int max_digits = std::numeric_limits<int64_t>::digits10;
   if (!after_dot.empty()) {
     int64_t next_digit = 0;
     // After dot will be used to scale integer part so make sure it wont overflow
     if (after_dot.size() + before_dot_digits > max_digits) {
-      if (before_dot_digits >= max_digits) {
-        after_dot = "0";
-      } else {
-        next_digit = std::stoll(after_dot.substr(max_digits - before_dot_digits, 1));
-        after_dot = after_dot.substr(0, max_digits - before_dot_digits);
-      }
+      const size_t kept_digits =
+          before_dot_digits >= max_digits ? 0 : max_digits - before_dot_digits;
+      next_digit = after_dot[kept_digits] - '0';
+      after_dot = after_dot.substr(0, kept_digits);
     }
-    fraction = std::stoll(after_dot);
+    fraction = after_dot.empty() ? 0 : std::stoll(after_dot);
     fraction += next_digit >= 5 ? 1 : 0;
   }
 
   result = convert_decimal_value_to_scale_internal(result, after_dot.length());
+  if (result > std::numeric_limits<int64_t>::max() - fraction) {
+    throw std::out_of_range("Decimal " + std::string(s) + " is out of range");
+  }
   result += fraction;
   result = convert_decimal_value_to_scale_internal(result,
                                                    dtype->scale() - after_dot.length());
-- 
2.43.0


From 440db8d1803166f08158997c12c279a1cc4fd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 55/65] fix: give null date partition keys a bucket of their
 own

---
 .../Builders/PerfectHashTableBuilder.h              |  8 ++++----
 .../JoinHashTable/PerfectJoinHashTable.cpp          | 13 +++++--------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h b/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
index 889ec91..d6bb69e 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
+++ b/omniscidb/QueryEngine/JoinHashTable/Builders/PerfectHashTableBuilder.h
@@ -98,7 +98,7 @@ class PerfectJoinHashTableBuilder {
                                  col_range.getIntMax(),
                                  inline_fixed_encoding_null_value(type),
                                  is_bitwise_eq,
-                                 col_range.getIntMax() + 1,
+                                 col_range.getIntMax() + hash_entry_info.bucket_normalization,
                                  get_join_column_type_kind(type)};
     auto use_bucketization = inner_col->type()->isDate();
     if (layout == HashType::OneToOne) {
@@ -184,7 +184,7 @@ class PerfectJoinHashTableBuilder {
                                      col_range.getIntMax(),
                                      inline_fixed_encoding_null_value(type),
                                      is_bitwise_eq,
-                                     col_range.getIntMax() + 1,
+                                     col_range.getIntMax() + hash_entry_info.bucket_normalization,
                                      get_join_column_type_kind(type)};
 
         int error = fill_hash_join_buff_bucketized_cpu(
@@ -249,7 +249,7 @@ class PerfectJoinHashTableBuilder {
              col_range.getIntMax(),
              inline_fixed_encoding_null_value(type),
              is_bitwise_eq,
-             col_range.getIntMax() + 1,
+             col_range.getIntMax() + hash_entry_info.bucket_normalization,
              get_join_column_type_kind(type)},
             str_proxy_translation_map ? str_proxy_translation_map->data() : nullptr,
             thread_count);
@@ -264,7 +264,7 @@ class PerfectJoinHashTableBuilder {
              col_range.getIntMax(),
              inline_fixed_encoding_null_value(type),
              is_bitwise_eq,
-             col_range.getIntMax() + 1,
+             col_range.getIntMax() + hash_entry_info.bucket_normalization,
              get_join_column_type_kind(type)},
             str_proxy_translation_map ? str_proxy_translation_map->data() : nullptr,
             thread_count);
diff --git a/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp b/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
index 9fe0300..c37409b 100644
--- a/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp
@@ -80,7 +80,9 @@ HashEntryInfo get_bucketized_hash_entry_info(const hdk::ir::Type* context_type,
 
   int64_t bucket_normalization = context_type->isDate() ? col_range.getBucket() : 1;
   CHECK_GT(bucket_normalization, 0);
-  return {size_t(col_range.getIntMax() - col_range.getIntMin() + 1 + (is_bw_eq ? 1 : 0)),
+  // Null keys of a null-safe comparison get a bucket of their own after the last one.
+  return {size_t(col_range.getIntMax() - col_range.getIntMin() + 1 +
+                 (is_bw_eq ? bucket_normalization : 0)),
           bucket_normalization};
 }
 
@@ -801,13 +803,8 @@ std::vector<llvm::Value*> PerfectJoinHashTable::getHashJoinArgs(
   }
   auto special_date_bucketization_case = key_col_type->isDate();
   if (isBitwiseEq()) {
-    if (special_date_bucketization_case) {
-      hash_join_idx_args.push_back(executor_->cgen_state_->llInt(
-          col_range_.getIntMax() / hash_entry_info.bucket_normalization + 1));
-    } else {
-      hash_join_idx_args.push_back(
-          executor_->cgen_state_->llInt(col_range_.getIntMax() + 1));
-    }
+    hash_join_idx_args.push_back(executor_->cgen_state_->llInt(
+        col_range_.getIntMax() + hash_entry_info.bucket_normalization));
   }
 
   if (special_date_bucketization_case) {
-- 
2.43.0


From 8f66a2d509797e682136c46e2f7dd036d1f085c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 56/65] fix: rows with equal order keys share one running MIN
 or MAX

---
 omniscidb/QueryEngine/WindowContext.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/omniscidb/QueryEngine/WindowContext.cpp b/omniscidb/QueryEngine/WindowContext.cpp
index 7d17509..3ad1451 100644
--- a/omniscidb/QueryEngine/WindowContext.cpp
+++ b/omniscidb/QueryEngine/WindowContext.cpp
@@ -423,21 +423,7 @@ extern "C" RUNTIME_EXPORT void add_window_pending_output(void* pending_output,
 // Returns true iff the aggregate window function requires special multiplicity handling
 // to ensure that peer rows have the same value for the window function.
 bool window_function_requires_peer_handling(const hdk::ir::WindowFunction* window_func) {
-  if (!window_function_is_aggregate(window_func->kind())) {
-    return false;
-  }
-  if (window_func->orderKeys().empty()) {
-    return true;
-  }
-  switch (window_func->kind()) {
-    case hdk::ir::WindowFunctionKind::Min:
-    case hdk::ir::WindowFunctionKind::Max: {
-      return false;
-    }
-    default: {
-      return true;
-    }
-  }
+  return window_function_is_aggregate(window_func->kind());
 }
 
 void WindowFunctionContext::computePartition(const size_t partition_idx,
-- 
2.43.0


From 577656ae608470cecca811d6ef4c11e4d776031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 57/65] fix: sign-extend narrow MIN and MAX window values

---
 omniscidb/QueryEngine/TargetExprBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/TargetExprBuilder.cpp b/omniscidb/QueryEngine/TargetExprBuilder.cpp
index 07666ca..9df79fb 100644
--- a/omniscidb/QueryEngine/TargetExprBuilder.cpp
+++ b/omniscidb/QueryEngine/TargetExprBuilder.cpp
@@ -491,12 +491,16 @@ void TargetExprCodegen::codegenAggregate(
           apply_window_pending_outputs_name += "64";
         }
       }
+      // The integer versions take a 64-bit value.
+      auto pending_value = window_func_type->isFloatingPoint()
+                               ? target_lvs.front()
+                               : executor->cgen_state_->castToTypeIn(target_lvs.front(), 64);
       const auto partition_end =
           LL_INT(reinterpret_cast<int64_t>(window_func_context->partitionEnd()));
       executor->cgen_state_->emitExternalCall(apply_window_pending_outputs_name,
                                               llvm::Type::getVoidTy(LL_CONTEXT),
                                               {pending_outputs,
-                                               target_lvs.front(),
+                                               pending_value,
                                                partition_end,
                                                code_generator.posArg(nullptr)});
     }
-- 
2.43.0


From 1a4a219a23cef26743401bc3cd59f4f2d09cc88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 58/65] fix: AVG window over narrow integers no longer takes a
 running sum for null

---
 omniscidb/QueryEngine/WindowFunctionIR.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/WindowFunctionIR.cpp b/omniscidb/QueryEngine/WindowFunctionIR.cpp
index 67a9738..9c80455 100644
--- a/omniscidb/QueryEngine/WindowFunctionIR.cpp
+++ b/omniscidb/QueryEngine/WindowFunctionIR.cpp
@@ -106,6 +106,12 @@ std::string get_window_agg_name(const hdk::ir::WindowFunctionKind kind,
 const hdk::ir::Type* get_adjusted_window_type(
     const hdk::ir::WindowFunction* window_func) {
   const auto& args = window_func->args();
+  if (window_func->kind() == hdk::ir::WindowFunctionKind::Avg &&
+      args.front()->type()->isInteger()) {
+    // The running sum is 64-bit. With the null value of a narrower type it could be
+    // mistaken for null.
+    return args.front()->ctx().int64(args.front()->type()->nullable());
+  }
   return ((window_func->kind() == hdk::ir::WindowFunctionKind::Count && !args.empty()) ||
           window_func->kind() == hdk::ir::WindowFunctionKind::Avg)
              ? args.front()->type()
@@ -249,8 +255,10 @@ llvm::Value* Executor::codegenWindowFunctionAggregateCalls(llvm::Value* aggregat
     CodeGenerator code_generator(this, co.codegen_traits_desc);
     const auto arg_lvs = code_generator.codegen(args.front().get(), true, co);
     CHECK_EQ(arg_lvs.size(), size_t(1));
-    if (window_func->kind() == hdk::ir::WindowFunctionKind::Sum &&
-        !window_func_type->isFloatingPoint()) {
+    if ((window_func->kind() == hdk::ir::WindowFunctionKind::Sum &&
+         !window_func_type->isFloatingPoint()) ||
+        (window_func->kind() == hdk::ir::WindowFunctionKind::Avg &&
+         window_func_type->isInteger())) {
       crt_val = code_generator.codegenCastBetweenIntTypes(
           arg_lvs.front(), args.front()->type(), window_func_type, false);
     } else {
-- 
2.43.0


From aa2ec311a1cf66f194af2419e09664210f380423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:19 +0000
Subject: [PATCH 59/65] fix: COUNT window over a narrow argument keeps its full
 width

---
 omniscidb/QueryEngine/WindowFunctionIR.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WindowFunctionIR.cpp b/omniscidb/QueryEngine/WindowFunctionIR.cpp
index 9c80455..6701512 100644
--- a/omniscidb/QueryEngine/WindowFunctionIR.cpp
+++ b/omniscidb/QueryEngine/WindowFunctionIR.cpp
@@ -352,8 +352,9 @@ llvm::Value* Executor::codegenAggregateWindowState(const CompilationOptions& co)
     }
   }
   if (window_func->kind() == hdk::ir::WindowFunctionKind::Count) {
+    // The width of the counter does not depend on the width of the argument.
     return cgen_state_->ir_builder_.CreateLoad(
-        get_int_type(window_func_type->size() * 8, cgen_state_->context_),
+        get_int_type(window_func_type->isFp32() ? 32 : 64, cgen_state_->context_),
         aggregate_state);
   }
   if (window_func_type->isFp32()) {
-- 
2.43.0


From 59d9de0a2d952f735fc9f96156091c757afe6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:33 +0000
Subject: [PATCH 60/65] fix: place fragments after an empty one where they
 belong when a table is linearised

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 62fd71f..26ef1ac 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -342,7 +342,8 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
             CHECK(ab->getMemoryPtr());
             int8_t* col_buffer =
                 ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[frag_id].first, col_buffer, write_ptrs[frag_id].second);
+            memcpy(
+                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
           }
         });
 
-- 
2.43.0


From fee038a2937584c8bd34715d6f8a9b330e933827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:33 +0000
Subject: [PATCH 61/65] fix: a sort of a limited sort keeps the inner limit

---
 omniscidb/QueryEngine/QueryExecutionSequence.cpp | 5 ++++-
 omniscidb/QueryEngine/WorkUnitBuilder.cpp        | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/QueryExecutionSequence.cpp b/omniscidb/QueryEngine/QueryExecutionSequence.cpp
index fe84f64..d79d4e0 100644
--- a/omniscidb/QueryEngine/QueryExecutionSequence.cpp
+++ b/omniscidb/QueryEngine/QueryExecutionSequence.cpp
@@ -241,7 +241,10 @@ class QueryExecutionSequenceImpl {
     for (auto node : execution_points_) {
       if (node->is<ir::Sort>()) {
         auto input = node->getInput(0);
-        if (boost::in_degree(node_to_vertex_[input], graph_) == 1) {
+        // A sort of a sort cannot be a single step: the inner one can have its own limit
+        // and offset.
+        if (!input->is<ir::Sort>() &&
+            boost::in_degree(node_to_vertex_[input], graph_) == 1) {
           to_merge.push_back(input);
         }
       }
diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 2884b86..18dd2c3 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -540,6 +540,10 @@ void WorkUnitBuilder::processFilter(const ir::Filter* filter) {
 }
 
 void WorkUnitBuilder::processSort(const ir::Sort* sort) {
+  // Sort can be the only node of a step when its input is already computed.
+  if (groupby_exprs_.empty() && !is_agg_) {
+    groupby_exprs_.push_back(nullptr);
+  }
   sort_info_.algorithm =
       allow_speculative_sort_ ? SortAlgorithm::SpeculativeTopN : SortAlgorithm::Default;
   if (groupby_exprs_.size() == (size_t)1 && !groupby_exprs_.front()) {
-- 
2.43.0


From f4af03d4d83ea98b2d89b24a7dd55fcd9e6f098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:33 +0000
Subject: [PATCH 62/65] fix: a projected aggregate without keys gives one row
 for an empty input

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 18dd2c3..cccc5b2 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -484,7 +484,8 @@ void WorkUnitBuilder::processProject(const ir::Project* proj) {
     input_rewriter_.addReplacement(proj, i, new_target_exprs[i]);
   }
   target_exprs_[rte_idx] = std::move(new_target_exprs);
-  if (groupby_exprs_.empty()) {
+  // A projection of an aggregate without keys is still such an aggregate.
+  if (groupby_exprs_.empty() && !is_agg_) {
     groupby_exprs_.push_back(nullptr);
   }
 }
-- 
2.43.0


From 2416fe6c8531e4f43d5808ca7c120f973371ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:26 +0000
Subject: [PATCH 63/65] fix: projecting the inner key of a join on an outer
 expression no longer aborts

---
 omniscidb/QueryEngine/ColumnIR.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnIR.cpp b/omniscidb/QueryEngine/ColumnIR.cpp
index 809a4f2..b078edc 100644
--- a/omniscidb/QueryEngine/ColumnIR.cpp
+++ b/omniscidb/QueryEngine/ColumnIR.cpp
@@ -485,8 +485,8 @@ hdk::ir::ExprPtr CodeGenerator::hashJoinLhs(const hdk::ir::ColumnVar* rhs) const
           eq_left_op = tautological_eq->leftOperand();
         }
         const auto eq_left_op_col = dynamic_cast<const hdk::ir::ColumnVar*>(eq_left_op);
-        CHECK(eq_left_op_col);
-        if (eq_left_op_col->rteIdx() != 0) {
+        // The outer side can be an expression. Read the inner column then.
+        if (!eq_left_op_col || eq_left_op_col->rteIdx() != 0) {
           return nullptr;
         }
         if (rhs->type()->isString() || rhs->type()->isExtDictionary()) {
@@ -521,8 +521,8 @@ std::shared_ptr<const hdk::ir::ColumnVar> CodeGenerator::hashJoinLhsTuple(
   for (size_t i = 0; i < lhs_tuple.size(); ++i) {
     if (*rhs_tuple[i] == *rhs) {
       const auto lhs_col =
-          std::static_pointer_cast<const hdk::ir::ColumnVar>(lhs_tuple[i]);
-      return lhs_col->rteIdx() == 0 ? lhs_col : nullptr;
+          std::dynamic_pointer_cast<const hdk::ir::ColumnVar>(lhs_tuple[i]);
+      return lhs_col && lhs_col->rteIdx() == 0 ? lhs_col : nullptr;
     }
   }
   return nullptr;
-- 
2.43.0


From 94cd266d750f0e2e940680fc58f1aca6739a3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:54 +0000
Subject: [PATCH 64/65] fix: do not hoist filters on a deeper scan of the left
 table of a left join

---
 omniscidb/QueryEngine/IRCodegen.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/IRCodegen.cpp b/omniscidb/QueryEngine/IRCodegen.cpp
index 198987c..cc1cb15 100644
--- a/omniscidb/QueryEngine/IRCodegen.cpp
+++ b/omniscidb/QueryEngine/IRCodegen.cpp
@@ -19,6 +19,7 @@
 #include "ExternalExecutor.h"
 #include "IR/ExprCollector.h"
 #include "MaxwellCodegenPatch.h"
+#include "RangeTableIndexVisitor.h"
 #include "RelAlgTranslator.h"
 
 // Driver methods for the IR generation.
@@ -724,11 +725,15 @@ JoinLoop::HoistedFiltersCallback Executor::buildHoistLeftHandSideFiltersCb(
       if (selected_lhs) {
         std::list<hdk::ir::ExprPtr> hoisted_quals;
         // get all LHS-only filters
-        auto should_hoist_qual = [&hoisted_quals](const auto& qual, const int table_id) {
+        auto should_hoist_qual = [&hoisted_quals, selected_lhs](const auto& qual,
+                                                                const int table_id) {
           CHECK(qual);
 
           const auto table_ids = ExprTableIdCollector::collect(qual.get());
-          if (table_ids.size() == 1 && table_ids.find(table_id) != table_ids.end()) {
+          // The same table can be joined again on a deeper level.
+          if (table_ids.size() == 1 && table_ids.find(table_id) != table_ids.end() &&
+              MaxRangeTableIndexCollector::collect(qual.get()) <=
+                  selected_lhs->rteIdx()) {
             hoisted_quals.push_back(qual);
           }
         };
-- 
2.43.0


From c8fb8368322ffcb6559002d5653c2a273da78355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:00 +0000
Subject: [PATCH 65/65] fix: keep a lazily fetched inner join key lazy so that
 columnar results hold cells of its width

---
 omniscidb/QueryEngine/ColumnIR.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnIR.cpp b/omniscidb/QueryEngine/ColumnIR.cpp
index b078edc..8f4b943 100644
--- a/omniscidb/QueryEngine/ColumnIR.cpp
+++ b/omniscidb/QueryEngine/ColumnIR.cpp
@@ -106,10 +106,9 @@ std::vector<llvm::Value*> CodeGenerator::codegenColVar(const hdk::ir::ColumnVar*
 
   // Use the already fetched left-hand side of an equi-join if the types are identical.
   // Currently, types can only be different because of different underlying dictionaries.
-  if (hash_join_lhs && hash_join_lhs->type()->equal(col_var->type())) {
-    if (plan_state_->isLazyFetchColumn(col_var)) {
-      plan_state_->columns_to_fetch_.insert(column_var_to_descriptor(col_var));
-    }
+  // A lazily fetched column stays lazy: its output slot is planned for a row position.
+  if (hash_join_lhs && hash_join_lhs->type()->equal(col_var->type()) &&
+      !plan_state_->isLazyFetchColumn(col_var)) {
     return codegen(hash_join_lhs.get(), fetch_column, co);
   }
   auto pos_arg = posArg(col_var);
-- 
2.43.0

