From 3660f4f2e0fd6285691fa6b22f1b9884d40a8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 01/53] fix: use memmove when compacting RR22 OPRF outputs in
 place

---
 psi/algorithm/rr22/rr22_utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_utils.cc b/psi/algorithm/rr22/rr22_utils.cc
index f51af91..a777819 100644
--- a/psi/algorithm/rr22/rr22_utils.cc
+++ b/psi/algorithm/rr22/rr22_utils.cc
@@ -243,7 +243,8 @@ std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionSender(
           (std::ostringstream() << okvs::Galois128(truncate_mask)).str());
     }
     for (size_t i = 0; i < self_oprfs.size(); ++i) {
-      std::memcpy(data_ptr + (i * mask_size), &self_oprfs[i], mask_size);
+      // in-place compaction: source and destination may overlap
+      std::memmove(data_ptr + (i * mask_size), &self_oprfs[i], mask_size);
     }
   }
   yacl::ByteContainerView send_buffer(data_ptr, self_oprfs.size() * mask_size);
@@ -288,7 +289,8 @@ std::vector<uint32_t> GetIntersectionSender(
           (std::ostringstream() << okvs::Galois128(truncate_mask)).str());
     }
     for (size_t i = 0; i < self_oprfs.size(); ++i) {
-      std::memcpy(data_ptr + (i * mask_size), &self_oprfs[i], mask_size);
+      // in-place compaction: source and destination may overlap
+      std::memmove(data_ptr + (i * mask_size), &self_oprfs[i], mask_size);
     }
   }
   for (size_t i = 0; i < self_oprfs.size(); i += kSendChunkSize) {
-- 
2.43.0


From 4f31c2f141344259258431edb91786c033da10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 02/53] fix: bound the peer configuration text in the ECDH PSI
 sanity check

---
 psi/algorithm/ecdh/ecdh_psi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..9226b15 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -18,6 +18,7 @@
 #include <future>
 #include <memory>
 #include <string>
+#include <string_view>
 #include <unordered_map>
 #include <utility>
 
@@ -54,7 +55,8 @@ void EcdhPsiContext::CheckConfig() {
   auto peer_config = config_list[main_link_ctx_->NextRank()];
   YACL_ENFORCE(my_config_buf == peer_config,
                "EcdhPsiContext Config mismatch, mine={}, peer={}", my_config,
-               peer_config.data<const char>());
+               std::string_view(peer_config.data<const char>(),
+                                peer_config.size()));
 }
 
 void EcdhPsiContext::MaskSelf(
-- 
2.43.0


From b5bd8b4f927250df11776c4c825b2604ceb37d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 03/53] fix: carry PSI result items as bytes, keys need not be
 UTF-8

---
 psi/utils/serializable.proto | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/utils/serializable.proto b/psi/utils/serializable.proto
index 919ad81..e81657d 100644
--- a/psi/utils/serializable.proto
+++ b/psi/utils/serializable.proto
@@ -32,7 +32,7 @@ message PsiDataBatchProto {
 }
 
 message StrItemsProto {
-  repeated string items = 1;
+  repeated bytes items = 1;
   map<uint64, uint32> duplicate_item_cnt = 2;
 }
 
-- 
2.43.0


From c03db3de85ce4cf5cf1c3b8d94d80a52da75d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 04/53] fix: guard the process-wide resource registry with a
 mutex

---
 psi/utils/resource_manager.cc | 3 +++
 psi/utils/resource_manager.h  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/psi/utils/resource_manager.cc b/psi/utils/resource_manager.cc
index a93a4c6..169c268 100644
--- a/psi/utils/resource_manager.cc
+++ b/psi/utils/resource_manager.cc
@@ -57,10 +57,12 @@ std::shared_ptr<yacl::link::Context> LinkResource::GetLinkContext() const {
 }
 
 void ResourceManager::AddResource(std::shared_ptr<Resource> resource) {
+  std::lock_guard<std::mutex> lock(mutex_);
   resources_.emplace(resource->Name(), resource);
 }
 
 void ResourceManager::RemoveResource(const std::string& name) {
+  std::lock_guard<std::mutex> lock(mutex_);
   auto iter = resources_.find(name);
   if (iter != resources_.end()) {
     iter->second->Release();
@@ -68,6 +70,7 @@ void ResourceManager::RemoveResource(const std::string& name) {
   }
 }
 void ResourceManager::RemoveAllResource() {
+  std::lock_guard<std::mutex> lock(mutex_);
   for (auto& resource : resources_) {
     resource.second->Release();
   }
diff --git a/psi/utils/resource_manager.h b/psi/utils/resource_manager.h
index 0225386..5bbbdce 100644
--- a/psi/utils/resource_manager.h
+++ b/psi/utils/resource_manager.h
@@ -16,6 +16,7 @@
 
 #include <filesystem>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -83,6 +84,7 @@ class ResourceManager {
 
  private:
   ResourceManager() = default;
+  std::mutex mutex_;
   std::unordered_map<std::string, std::shared_ptr<Resource>> resources_;
 };
 
-- 
2.43.0


From 99b24e20835252e5d8148d6272d4f047b7aa1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 05/53] fix: align unique-key intersections by the key columns
 only

---
 psi/utils/join_processor.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..8e56b34 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -273,8 +273,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   dumper.Flush();
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
-      Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+      Table::MakeFromCsv(sorted_intersect_path_)->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From c8ecadc6b31cf838aa6cee411d19b19faded698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 06/53] fix: make the key digest unambiguous about where keys
 end

---
 psi/utils/csv_checker.cc |  3 +++
 psi/utils/table_utils.cc | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..484bdb2 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,6 +101,9 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
+      // The length goes first, so that different keys never concatenate to the
+      // same digest input, e.g. {"1", "23"} and {"12", "3"}.
+      hash_obj.Update(fmt::format("{}:", combined_id.size()));
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..8ba84e0 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -49,6 +49,17 @@
 
 namespace psi {
 
+namespace {
+
+// The length goes first, so that different keys never concatenate to the same
+// digest input, e.g. {"1", "23"} and {"12", "3"}.
+void UpdateKeysHash(const std::string& key, yacl::crypto::Sha256Hash* hash) {
+  hash->Update(fmt::format("{}:", key.size()));
+  hash->Update(key);
+}
+
+}  // namespace
+
 UniqueKeyTable::UniqueKeyTable(std::string path, std::string format,
                                std::vector<std::string> keys)
     : TableWithKeys(std::move(path), std::move(format)),
@@ -307,7 +318,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
-      hash.Update(keys[i]);
+      UpdateKeysHash(keys[i], &hash);
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -402,7 +413,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
-      hash.Update(item);
+      UpdateKeysHash(item, &hash);
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From 26303e2b7f1883379ba938787fb15b17956eacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 07/53] fix: do not count empty csv lines as rows when
 filtering by row index

---
 psi/legacy/bucket_psi.cc |  6 ++++++
 psi/utils/table_utils.cc | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/psi/legacy/bucket_psi.cc b/psi/legacy/bucket_psi.cc
index e042d6c..7e03068 100644
--- a/psi/legacy/bucket_psi.cc
+++ b/psi/legacy/bucket_psi.cc
@@ -136,6 +136,9 @@ size_t FilterFileByIndices(const std::string& input, const std::string& output,
     if (idx < header_line_count) {
       out->Write(line);
       out->Write("\n");
+    } else if (line.empty() || line == "\r") {
+      // the csv reader ignores empty lines, they have no index.
+      continue;
     } else {
       if (!output_difference) {
         if (indices_iter == indices.end()) {
@@ -191,6 +194,9 @@ size_t FilterFileByIndices(const std::string& input, const std::string& output,
     if (idx < header_line_count) {
       out->Write(line);
       out->Write("\n");
+    } else if (line.empty() || line == "\r") {
+      // the csv reader ignores empty lines, they have no index.
+      continue;
     } else {
       if (!output_difference) {
         if (!intersection_index.has_value()) {
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 8ba84e0..1dd22ec 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -517,6 +517,16 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
   dumper.ToIntersect(line);
   dumper.ToExcept(line);
 
+  // Rows are numbered the way the csv reader does, which ignores empty lines.
+  auto next_row = [&]() -> bool {
+    while (std::getline(sorted_file, line)) {
+      if (!line.empty() && line != "\r") {
+        return true;
+      }
+    }
+    return false;
+  };
+
   InterIndexProcessor processor(reader, GetBatchProvider());
 
   uint32_t sorted_file_index = 0;
@@ -526,12 +536,12 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_unique_cnt += inter_index_info.size();
     for (auto& info : inter_index_info) {
       while (sorted_file_index < info.start_index) {
-        std::getline(sorted_file, line);
+        next_row();
         dumper.ToExcept(line);
         sorted_file_index++;
       }
       for (uint32_t i = 0; i <= info.self_dup_cnt; ++i) {
-        std::getline(sorted_file, line);
+        next_row();
         dumper.ToIntersect(line, info.peer_dup_cnt);
       }
       sorted_file_index += info.self_dup_cnt + 1;
@@ -542,7 +552,7 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_index_info = processor.GetBatchInfo();
   }
 
-  while (std::getline(sorted_file, line)) {
+  while (next_row()) {
     dumper.ToExcept(line);
     sorted_file_index++;
   }
-- 
2.43.0


From a87a7cc8edb95cc157731b04de400afd6509be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 08/53] fix: reuse the key meta file only for the same key
 columns and content

---
 psi/utils/table_utils.cc    | 20 +++++++++++++++-----
 psi/utils/table_utils.proto |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 1dd22ec..77c4f2a 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -17,6 +17,7 @@
 #include <spdlog/spdlog.h>
 #include <sys/types.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -393,15 +394,21 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     proto::KeyInfoMeta meta;
     LoadJsonFileToPbMessage(meta_path, meta);
 
-    if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
+    // The meta file stays beside the input: it is only valid for the same key
+    // columns of the same content.
+    const auto keys = unique_key_table->Keys();
+    if (std::equal(meta.keys().begin(), meta.keys().end(), keys.begin(),
+                   keys.end()) &&
+        std::filesystem::last_write_time(meta_path) >=
+            std::filesystem::last_write_time(unique_key_table->Path()) &&
+        meta.source_file_size() ==
+            std::filesystem::file_size(unique_key_table->Path())) {
       return std::shared_ptr<KeyInfo>(
           new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
     } else {
       SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
-          std::filesystem::file_size(unique_key_table->Path()),
-          meta.source_file_size());
+          "meta file {} does not match unique_key_table {}, rebuild.",
+          meta_path, unique_key_table->Path());
     }
   }
 
@@ -426,6 +433,9 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
+  for (const auto& key : unique_key_table->Keys()) {
+    meta.add_keys(key);
+  }
   DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
diff --git a/psi/utils/table_utils.proto b/psi/utils/table_utils.proto
index 3de5c08..a3a8d5e 100644
--- a/psi/utils/table_utils.proto
+++ b/psi/utils/table_utils.proto
@@ -24,4 +24,5 @@ message KeyInfoMeta {
   uint32 unique_key_cnt = 3;
   uint32 original_cnt = 4;
   uint64 source_file_size = 5;
+  repeated string keys = 6;
 }
-- 
2.43.0


From b91192f6714f90856df3045a7596c0a8a60af7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 09/53] fix: escape quotes when keys and headers are written as
 quoted csv

---
 psi/utils/table_utils.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 77c4f2a..3f47928 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -59,6 +59,17 @@ void UpdateKeysHash(const std::string& key, yacl::crypto::Sha256Hash* hash) {
   hash->Update(key);
 }
 
+std::string QuoteCsvField(const std::string& field) {
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted += '"';
+    }
+    quoted += c;
+  }
+  return quoted + '"';
+}
+
 }  // namespace
 
 UniqueKeyTable::UniqueKeyTable(std::string path, std::string format,
@@ -223,9 +234,9 @@ Table::Table(std::string path, std::string format)
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns) {
   std::ostringstream oss;
-  oss << '"' << columns[0] << '"';
+  oss << QuoteCsvField(columns[0]);
   for (size_t i = 1; i < columns.size(); ++i) {
-    oss << ',' << '"' << columns[i] << '"';
+    oss << ',' << QuoteCsvField(columns[i]);
   }
   return oss.str();
 }
@@ -320,7 +331,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       UpdateKeysHash(keys[i], &hash);
-      out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
+      out << QuoteCsvField(keys[i]) << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
         duplicate_key_cnt++;
-- 
2.43.0


From 827bcff98a49e23c7feb1dfb8673ce71458e210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 10/53] fix: quote file paths handed to the shell for sorting

---
 psi/utils/key.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 64b64d2..f1518a4 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -106,6 +106,19 @@ int GetCpuCount() {
   return std::thread::hardware_concurrency();
 }
 
+// Quotes a file path as a single word for the shell.
+std::string ShellQuote(const std::string& path) {
+  std::string quoted = "'";
+  for (char c : path) {
+    if (c == '\'') {
+      quoted += "'\\''";
+    } else {
+      quoted += c;
+    }
+  }
+  return quoted + "'";
+}
+
 }  // namespace
 
 // Multiple-Key out-of-core sort.
@@ -174,8 +187,9 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
       "tail -n +2 {} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
       "--stable "
       "--field-separator=, {} {} >>{}",
-      in_csv, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      unique ? "| LC_ALL=C uniq" : "", out_csv);
+      ShellQuote(in_csv), numeric_sort ? "-n" : "", mcpus,
+      fmt::join(sort_keys, " "), unique ? "| LC_ALL=C uniq" : "",
+      ShellQuote(out_csv));
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
-- 
2.43.0


From 2d8f7f37d04dfd7963411db843750a910ff2d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 11/53] fix: end every stage of the RR22 bucket pipeline when
 one of them fails

---
 psi/algorithm/rr22/rr22_psi.h | 52 ++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..b8a9ae5 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -200,23 +200,46 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // set when a stage failed, so that no other stage waits for it forever.
+    std::atomic<bool> failed = false;
+    auto guard = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        {
+          std::scoped_lock lock(prepare_mtx, oprf_mtx);
+          failed = true;
+        }
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_stage = [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
-    });
-    auto run_f = std::async(std::launch::async, [&]() {
+    };
+    auto run_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -228,20 +251,29 @@ class Rr22Runner {
           oprf_cv.notify_all();
         }
       }
-    });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    };
+    auto intersection_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
         }
         runner->GetIntersection(intersection_lctx_);
       }
-    });
+    };
+    auto prepare_f =
+        std::async(std::launch::async, [&]() { guard(prepare_stage); });
+    auto run_f = std::async(std::launch::async, [&]() { guard(run_stage); });
+    auto intersection_f =
+        std::async(std::launch::async, [&]() { guard(intersection_stage); });
     run_f.get();
     prepare_f.get();
     intersection_f.get();
-- 
2.43.0


From 00b8af0844abace21487924a0e0b5cccd4136e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 12/53] fix: do not spin forever in the KKRT sender when
 corrections stop arriving

---
 psi/algorithm/kkrt/kkrt_psi.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..7332120 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -138,7 +138,7 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
   uint64_t kkrtOtBatchSize = sender.GetBatchSize();
 
   std::atomic<uint64_t> recv_idx(0);
-  auto f_recv_corrections = std::async([&]() {
+  auto recv_corrections = [&]() {
     // while there are more corrections for be received
     size_t correction_batch_idx = 0;
     while (recv_idx < num_bins) {
@@ -158,6 +158,16 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
       // notify the other thread that the corrections have arrived
       recv_idx.fetch_add(current_step_size, std::memory_order_release);
     }
+  };
+  std::atomic<bool> recv_failed(false);
+  auto f_recv_corrections = std::async(std::launch::async, [&]() {
+    try {
+      recv_corrections();
+    } catch (...) {
+      // the encoding loop below must not wait for corrections any more
+      recv_failed.store(true, std::memory_order_release);
+      throw;
+    }
   });
 
   // permute sender input data
@@ -218,7 +228,7 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
   // we can
   // TODO(shuyan.ycf): this implementation wastes cpus if the networking is
   // slow (Due to spin logics). Better use synchronization primitives.
-  while (r != num_bins) {
+  while (r != num_bins && !recv_failed.load(std::memory_order_acquire)) {
     // process things in steps
     for (uint64_t j = 0; j < kkrtOtBatchSize; ++j) {
       // lets check a random item to see if it can be encoded. If so,
-- 
2.43.0


From 437731fbd9ff286a0e11e34c16db6c1dfde98c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 13/53] fix: a resumed run may commit the same intersection
 index twice

---
 psi/interface.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..c804f9d 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -155,9 +155,12 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SPDLOG_INFO("[AbstractPsiParty::Finalize][Generate result] start");
 
   SyncWait(lctx_, [&] {
+    // NOTE: a resumed run may have to repeat work whose indices were already
+    // written before the interruption.
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true, false);
+                 std::vector<std::string>{kIdx}, true,
+                 recovery_manager_ != nullptr);
 
     if (role_ == v2::ROLE_RECEIVER ||
         config_.protocol_config().broadcast_result()) {
-- 
2.43.0


From 3d6b88486373672639f84a5d59414bd66e7475cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 14/53] fix: replace the recovery checkpoint file atomically

---
 psi/checkpoint/recovery.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..4a3593f 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -90,10 +90,17 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
+  // Replace the previous checkpoint at once, so that an interruption never
+  // leaves an incomplete one.
+  std::filesystem::path tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
   std::ofstream file;
-  file.open(checkpoint_file_path_);
+  file.open(tmp_path);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(file.good(), "failed to write checkpoint file {}",
+               tmp_path.string());
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
-- 
2.43.0


From 6e0e334b1166c6a7c74fcf97d49a9bc655d5c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 15/53] fix: update the recovery checkpoint under its mutex

---
 psi/checkpoint/recovery.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 4a3593f..0a70c2c 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -80,9 +80,9 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
   }
 }
 
+// Requires mutex_ to be held: the masking threads update the checkpoint
+// concurrently.
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -106,6 +106,7 @@ void RecoveryManager::SaveCheckpointFile() {
 void RecoveryManager::MarkInitEnd(
     const v2::PsiConfig& config,
     const std::vector<uint8_t>& input_hash_digest) {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() != v2::RecoveryCheckpoint::STAGE_UNSPECIFIED) {
     // Check whether config and input_hash_digest match the previous record.
     YACL_ENFORCE(::google::protobuf::util::MessageDifferencer::Equals(
@@ -128,6 +129,7 @@ void RecoveryManager::MarkInitEnd(
 
 void RecoveryManager::MarkPreProcessEnd(
     const std::shared_ptr<IEccCryptor>& cryptor) {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (cryptor) {
     if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END) {
       checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END);
@@ -207,6 +209,7 @@ bool RecoveryManager::MarkOnlineStart(
       "{}",
       parsed_bucket_count_from_peer_);
 
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_START) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
 
@@ -218,6 +221,7 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -226,6 +230,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
@@ -236,6 +241,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
@@ -245,6 +251,7 @@ void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
 }
 
 void RecoveryManager::MarkOnlineEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_END);
 
@@ -254,6 +261,7 @@ void RecoveryManager::MarkOnlineEnd() {
 }
 
 void RecoveryManager::MarkPostProcessEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END);
 
-- 
2.43.0


From 7530efad19b9ccc3722ac9cbbf24e0a25ac5f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 16/53] fix: use the configured batch size in ECDH PSI

---
 psi/algorithm/ecdh/receiver.cc | 2 ++
 psi/algorithm/ecdh/sender.cc   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/psi/algorithm/ecdh/receiver.cc b/psi/algorithm/ecdh/receiver.cc
index 78a0af1..09ffe5a 100644
--- a/psi/algorithm/ecdh/receiver.cc
+++ b/psi/algorithm/ecdh/receiver.cc
@@ -61,6 +61,8 @@ void EcdhPsiReceiver::PreProcess() {
     psi_options_.batch_size =
         config_.protocol_config().ecdh_config().batch_size();
   }
+  batch_provider_ =
+      keys_info_->GetKeysProviderWithDupCnt(psi_options_.batch_size);
 
   psi_options_.ecc_cryptor =
       CreateEccCryptor(config_.protocol_config().ecdh_config().curve());
diff --git a/psi/algorithm/ecdh/sender.cc b/psi/algorithm/ecdh/sender.cc
index 9013f73..88d28f6 100644
--- a/psi/algorithm/ecdh/sender.cc
+++ b/psi/algorithm/ecdh/sender.cc
@@ -62,6 +62,8 @@ void EcdhPsiSender::PreProcess() {
     psi_options_.batch_size =
         config_.protocol_config().ecdh_config().batch_size();
   }
+  batch_provider_ =
+      keys_info_->GetKeysProviderWithDupCnt(psi_options_.batch_size);
 
   psi_options_.ecc_cryptor =
       CreateEccCryptor(config_.protocol_config().ecdh_config().curve());
-- 
2.43.0


From cbf671acdba0fc7d4300c78c0fe93cfce83be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 17/53] fix: resume ECDH PSI at the right item positions

---
 psi/algorithm/ecdh/ecdh_psi.cc | 6 +++++-
 psi/utils/ec_point_store.h     | 7 +++++++
 psi/utils/hash_bucket_cache.h  | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index 9226b15..e894dd8 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -83,12 +83,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
@@ -478,6 +478,10 @@ void RunEcdhPsi(const EcdhPsiOptions& options,
     }
 
     SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
+
+    // The dual masked items received from now on belong to the self items
+    // after the processed ones.
+    self_ec_point_store->SetItemCount(processed_item_cnt);
   }
 
   std::future<void> f_mask_self = std::async([&] {
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..744a2a7 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -61,6 +61,9 @@ class IEcPointStore {
   }
 
   virtual uint64_t ItemCount() = 0;
+
+  // Continue after `item_cnt` items that were saved by an earlier run.
+  virtual void SetItemCount(uint64_t /*item_cnt*/) {}
 };
 
 class MemoryEcPointStore : public IEcPointStore {
@@ -99,6 +102,10 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   uint64_t ItemCount() override;
 
+  void SetItemCount(uint64_t item_cnt) override {
+    cache_->SetItemCount(item_cnt);
+  }
+
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
     return cache_->LoadBucketItems(bin_idx);
   };
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..6b1eaac 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -91,6 +91,9 @@ class HashBucketCache {
 
   uint64_t ItemCount() const { return item_index_; }
 
+  // The index of the next item, when earlier ones are in the cache already.
+  void SetItemCount(uint64_t item_cnt) { item_index_ = item_cnt; }
+
  private:
   std::unique_ptr<MultiplexDiskCache> disk_cache_;
 
-- 
2.43.0


From 390463af1d3268b5be2de00790d097064301dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 18/53] fix: check sizes and indices received from the peer in
 RR22 and DP-PSI

A peer that sends more data than announced, or result indices and counts that
are out of range, made the receiving party write or read outside its buffers.
Both now abort the protocol with an error.
---
 psi/algorithm/rr22/rr22_utils.cc | 27 +++++++++++++++++++++++----
 psi/algorithm/rr22/rr22_utils.h  |  6 ++++++
 psi/legacy/dp_psi/dp_psi.cc      |  9 +++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_utils.cc b/psi/algorithm/rr22/rr22_utils.cc
index a777819..2a00c0a 100644
--- a/psi/algorithm/rr22/rr22_utils.cc
+++ b/psi/algorithm/rr22/rr22_utils.cc
@@ -46,6 +46,20 @@ struct NoHash {
   }
 };
 
+// parse the indices of matched items sent by the peer.
+std::vector<uint32_t> ParseIndices(const yacl::Buffer& buffer,
+                                   size_t items_num) {
+  YACL_ENFORCE(buffer.size() % sizeof(uint32_t) == 0,
+               "unexpected size of peer's result: {}", buffer.size());
+  std::vector<uint32_t> indices(buffer.size() / sizeof(uint32_t));
+  std::memcpy(indices.data(), buffer.data<uint8_t>(), buffer.size());
+  for (auto index : indices) {
+    YACL_ENFORCE(index < items_num, "unexpected index {} in peer's result",
+                 index);
+  }
+  return indices;
+}
+
 }  // namespace
 
 std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionReceiver(
@@ -180,6 +194,11 @@ std::vector<uint32_t> GetIntersectionReceiver(
   size_t recv_item_count = 0;
   while (recv_item_count < peer_items_num) {
     auto buffer = lctx->Recv(lctx->NextRank(), fmt::format("oprf_value"));
+    YACL_ENFORCE(
+        buffer.size() % mask_size == 0 &&
+            buffer.size() / mask_size <= peer_items_num - recv_item_count,
+        "unexpected oprf chunk, got {} bytes, at most {} items expected",
+        buffer.size(), peer_items_num - recv_item_count);
     std::memcpy(peer_buffer.data<uint8_t>() + (recv_item_count * mask_size),
                 buffer.data<uint8_t>(), buffer.size());
     recv_item_count += buffer.size() / mask_size;
@@ -261,13 +280,14 @@ std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionSender(
   std::unordered_map<uint64_t, uint32_t> items_cnt;
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
-    result.resize(buffer.size() / sizeof(uint32_t));
-    std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
+    result = ParseIndices(buffer, self_oprfs.size());
     buffer = lctx->Recv(lctx->NextRank(), "broadcast_items_cnt");
     items_cnt = utils::DeserializeItemsCnt(buffer);
   }
   std::vector<uint32_t> items_cnt_v(result.size(), 0);
   for (auto& item : items_cnt) {
+    YACL_ENFORCE(item.first < items_cnt_v.size(),
+                 "unexpected item index {} in peer's count", item.first);
     items_cnt_v[item.first] = item.second;
   }
   return {result, items_cnt_v};
@@ -301,8 +321,7 @@ std::vector<uint32_t> GetIntersectionSender(
   }
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
-    result.resize(buffer.size() / sizeof(uint32_t));
-    std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
+    result = ParseIndices(buffer, self_oprfs.size());
   }
   return result;
 }
diff --git a/psi/algorithm/rr22/rr22_utils.h b/psi/algorithm/rr22/rr22_utils.h
index 10352a5..e625145 100644
--- a/psi/algorithm/rr22/rr22_utils.h
+++ b/psi/algorithm/rr22/rr22_utils.h
@@ -61,6 +61,12 @@ std::vector<ValueType> RecvChunked(
     yacl::Buffer paxos_solve_buf =
         lctx->Recv(lctx->NextRank(), fmt::format("recv paxos_solve"));
 
+    YACL_ENFORCE(
+        paxos_solve_buf.size() % sizeof(ValueType) == 0 &&
+            paxos_solve_buf.size() / sizeof(ValueType) <=
+                paxos_size - recv_item_count,
+        "unexpected paxos solve chunk, got {} bytes, at most {} items expected",
+        paxos_solve_buf.size(), paxos_size - recv_item_count);
     std::memcpy(paxos_solve_v.data() + recv_item_count, paxos_solve_buf.data(),
                 paxos_solve_buf.size());
 
diff --git a/psi/legacy/dp_psi/dp_psi.cc b/psi/legacy/dp_psi/dp_psi.cc
index 2dd7cdf..34a1773 100644
--- a/psi/legacy/dp_psi/dp_psi.cc
+++ b/psi/legacy/dp_psi/dp_psi.cc
@@ -274,6 +274,9 @@ std::vector<size_t> RunDpEcdhPsiBob(
       link_ctx->NextRank(), fmt::format("recv intersection_size"));
   size_t intersection_size = utils::DeserializeSize(intersection_size_buffer);
 
+  YACL_ENFORCE(intersection_size <= sub_sample_result.second.size(),
+               "unexpected intersection size {}", intersection_size);
+
   std::vector<size_t> intersection_idx(intersection_size);
   if (intersection_size == 0) {
     return intersection_idx;
@@ -287,6 +290,10 @@ std::vector<size_t> RunDpEcdhPsiBob(
     YACL_ENFORCE(batch.flatten_bytes.size() % sizeof(size_t) == 0);
     size_t current_num;
     current_num = batch.flatten_bytes.size() / sizeof(size_t);
+    YACL_ENFORCE(current_num <= intersection_size - recv_idx,
+                 "unexpected intersection batch, got {} items, at most {} "
+                 "expected",
+                 current_num, intersection_size - recv_idx);
     std::memcpy(intersection_idx.data() + recv_idx, batch.flatten_bytes.data(),
                 batch.flatten_bytes.size());
 
@@ -301,6 +308,8 @@ std::vector<size_t> RunDpEcdhPsiBob(
   std::vector<size_t> dp_intersection_idx;
   dp_intersection_idx.reserve(intersection_idx.size());
   for (const auto& idx : intersection_idx) {
+    YACL_ENFORCE(idx < sub_sample_result.second.size(),
+                 "unexpected intersection index {}", idx);
     dp_intersection_idx.push_back(sub_sample_result.second[idx]);
   }
   std::sort(dp_intersection_idx.begin(), dp_intersection_idx.end());
-- 
2.43.0


From e3338fb594a41103fe07743e57b7cc0fd72e1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 19/53] fix: check the size of the flags gathered from the
 peers

An empty flag message from a peer was dereferenced.
---
 psi/utils/sync.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/utils/sync.cc b/psi/utils/sync.cc
index f3a28e0..4da832e 100644
--- a/psi/utils/sync.cc
+++ b/psi/utils/sync.cc
@@ -27,6 +27,9 @@ std::vector<bool> AllGatherFlag(
   std::vector<yacl::Buffer> buffer_list =
       yacl::link::AllGather(link_ctx, {&int_flage, 1}, "PSI:SYNC_FLAG");
   for (size_t idx = 0; idx < buffer_list.size(); idx++) {
+    YACL_ENFORCE(buffer_list[idx].size() == sizeof(uint8_t),
+                 "unexpected flag of {} bytes from rank {}",
+                 buffer_list[idx].size(), idx);
     flag_list[idx] = (buffer_list[idx].data<uint8_t>()[0] == 1);
   }
   return flag_list;
-- 
2.43.0


From eb771fe496d4c7e4c87f32ed37d2553a34fde21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 20/53] fix: remove the temporary folder of a party when it is
 done or failed

The folder, with the party's keys in it, stayed until the end of the process,
and for good when the launcher ended with an error.
---
 psi/algorithm/ecdh/ub_psi/client.cc | 6 ++++++
 psi/algorithm/ecdh/ub_psi/client.h  | 2 +-
 psi/algorithm/ecdh/ub_psi/server.cc | 6 ++++++
 psi/algorithm/ecdh/ub_psi/server.h  | 2 +-
 psi/apps/psi_launcher/main.cc       | 7 ++++++-
 psi/interface.cc                    | 6 ++++++
 psi/interface.h                     | 2 +-
 7 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..ab796e8 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -32,6 +32,12 @@ EcdhUbPsiClient::EcdhUbPsiClient(const v2::UbPsiConfig& config,
                                  std::shared_ptr<yacl::link::Context> lctx)
     : AbstractUbPsiClient(config, std::move(lctx)) {}
 
+EcdhUbPsiClient::~EcdhUbPsiClient() {
+  if (dir_resource_) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 void EcdhUbPsiClient::Init() {
   YACL_ENFORCE(config_.mode() != v2::UbPsiConfig::MODE_UNSPECIFIED &&
                config_.mode() != v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE);
diff --git a/psi/algorithm/ecdh/ub_psi/client.h b/psi/algorithm/ecdh/ub_psi/client.h
index 391c914..ada7e04 100644
--- a/psi/algorithm/ecdh/ub_psi/client.h
+++ b/psi/algorithm/ecdh/ub_psi/client.h
@@ -26,7 +26,7 @@ class EcdhUbPsiClient : public AbstractUbPsiClient {
   explicit EcdhUbPsiClient(const v2::UbPsiConfig &config,
                            std::shared_ptr<yacl::link::Context> lctx = nullptr);
 
-  ~EcdhUbPsiClient() override = default;
+  ~EcdhUbPsiClient() override;
 
   void Init() override;
 
diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index 50d0282..f09da39 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -35,6 +35,12 @@ EcdhUbPsiServer::EcdhUbPsiServer(const v2::UbPsiConfig& config,
                                  std::shared_ptr<yacl::link::Context> lctx)
     : AbstractUbPsiServer(config, std::move(lctx)) {}
 
+EcdhUbPsiServer::~EcdhUbPsiServer() {
+  if (dir_resource_) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 void EcdhUbPsiServer::Init() {
   YACL_ENFORCE(config_.mode() != v2::UbPsiConfig::MODE_UNSPECIFIED);
 
diff --git a/psi/algorithm/ecdh/ub_psi/server.h b/psi/algorithm/ecdh/ub_psi/server.h
index 3f0f69e..892cb67 100644
--- a/psi/algorithm/ecdh/ub_psi/server.h
+++ b/psi/algorithm/ecdh/ub_psi/server.h
@@ -28,7 +28,7 @@ class EcdhUbPsiServer : public AbstractUbPsiServer {
   explicit EcdhUbPsiServer(const v2::UbPsiConfig& config,
                            std::shared_ptr<yacl::link::Context> lctx = nullptr);
 
-  ~EcdhUbPsiServer() override = default;
+  ~EcdhUbPsiServer() override;
 
   void Init() override;
 
diff --git a/psi/apps/psi_launcher/main.cc b/psi/apps/psi_launcher/main.cc
index 3965006..2ecc7fc 100644
--- a/psi/apps/psi_launcher/main.cc
+++ b/psi/apps/psi_launcher/main.cc
@@ -37,7 +37,7 @@ std::string GenerateVersion() {
                      PSI_VERSION_PATCH, PSI_DEV_IDENTIFIER);
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
   gflags::SetVersionString(GenerateVersion());
   gflags::AllowCommandLineReparsing();
   gflags::ParseCommandLineFlags(&argc, &argv, true);
@@ -142,4 +142,9 @@ int main(int argc, char* argv[]) {
   SPDLOG_INFO("Report: {}", report_json);
   SPDLOG_INFO("Thank you for trusting SecretFlow PSI Library.");
   return 0;
+} catch (const std::exception& e) {
+  // without a handler the stack may not be unwound, and the temporary data of
+  // the failed task would stay.
+  SPDLOG_ERROR("Task failed: {}", e.what());
+  throw;
 }
diff --git a/psi/interface.cc b/psi/interface.cc
index c804f9d..cb4fe39 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -48,6 +48,12 @@ AbstractPsiParty::AbstractPsiParty(const v2::PsiConfig &config, v2::Role role,
       selected_keys_(config_.keys().begin(), config_.keys().end()),
       lctx_(std::move(lctx)) {}
 
+AbstractPsiParty::~AbstractPsiParty() {
+  if (dir_resource_) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 std::filesystem::path AbstractPsiParty::GetTaskDir() {
   if (config_.recovery_config().enabled()) {
     if (recovery_manager_ == nullptr) {
diff --git a/psi/interface.h b/psi/interface.h
index e15fb28..99ef8ba 100644
--- a/psi/interface.h
+++ b/psi/interface.h
@@ -59,7 +59,7 @@ class AbstractPsiParty {
     return Finalize();
   }
 
-  virtual ~AbstractPsiParty() = default;
+  virtual ~AbstractPsiParty();
 
  protected:
   // Including tasks independent to protocol:
-- 
2.43.0


From 2a6ac70fa48bca6a0ab4e2e920a69680ec00fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 21/53] fix: threshold ECDH PSI keeps duplicate counts with
 their shuffled items

---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index 8710228..c972d40 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -103,7 +103,7 @@ void ThresholdEcdhPsiCtx::MaskAndShufflePeer(
       for (size_t i = 0; i < dual_masked_peers.size(); ++i) {
         shuffled_items[i] = std::move(dual_masked_peers[shuffled_indices[i]]);
         cache->SaveData(item_count + i, item_count + shuffled_indices[i],
-                        dup_cnts[i]);
+                        dup_cnts[shuffled_indices[i]]);
       }
     }
 
-- 
2.43.0


From 6ad160d3c84d87d3e42e6b3e228a436d442fee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 22/53] fix: the equal-set shortcut does not bypass the
 intersection threshold

---
 psi/interface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index cb4fe39..1d8fddb 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -101,7 +101,9 @@ void AbstractPsiParty::Init() {
   // Check if the input are the same between receiver and sender.
   // current only support unique keys input check
   // TODO(huocun): support dup keys input
-  if (config_.check_hash_digest()) {
+  // The shortcut below publishes the whole set, so it does not apply when the
+  // size of the intersection is limited.
+  if (config_.check_hash_digest() && config_.intersection_threshold() == 0) {
     auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);
     auto all_unique = std::all_of(unique_flag.begin(), unique_flag.end(),
                                   [](auto flag) { return flag; });
-- 
2.43.0


From 8d81bde8840b40d676ad14062f47020130215db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 23/53] fix: an interrupted cache transfer is not mistaken for
 a complete one

---
 experiment/psi/threshold_ub_psi/client.cc |  4 ++++
 psi/algorithm/ecdh/ub_psi/client.cc       | 19 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/experiment/psi/threshold_ub_psi/client.cc b/experiment/psi/threshold_ub_psi/client.cc
index 4474c87..c25ae0a 100644
--- a/experiment/psi/threshold_ub_psi/client.cc
+++ b/experiment/psi/threshold_ub_psi/client.cc
@@ -14,6 +14,8 @@
 
 #include "experiment/psi/threshold_ub_psi/client.h"
 
+#include <filesystem>
+
 #include "experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.h"
 
 #include "psi/utils/sync.h"
@@ -42,6 +44,8 @@ void ThresholdEcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(std::filesystem::exists(GetServerCachePath()),
+                 "no complete server cache at {}", GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index ab796e8..f4b4d92 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -65,21 +65,30 @@ void EcdhUbPsiClient::OfflineTransferCache() {
   std::shared_ptr<EcdhOprfPsiClient> ub_psi_client_transfer_cache =
       std::make_shared<EcdhOprfPsiClient>(psi_options_);
 
-  if (std::filesystem::exists(GetServerCachePath())) {
+  // The cache takes its name once it is complete, so that an interrupted
+  // transfer leaves nothing the online phase would take for the whole.
+  const std::string partial_path = GetServerCachePath() + ".partial";
+
+  if (std::filesystem::exists(GetServerCachePath()) ||
+      std::filesystem::exists(partial_path)) {
     SPDLOG_INFO("old cache file exists, remove {}", GetServerCachePath());
     std::filesystem::remove_all(config_.cache_path());
   }
 
   auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
-      GetServerCachePath(), ub_psi_client_transfer_cache->GetCompareLength());
+      partial_path, ub_psi_client_transfer_cache->GetCompareLength());
 
   ub_psi_client_transfer_cache->RecvFinalEvaluatedItems(peer_ec_point_store);
 
-  peer_ec_point_store->Flush();
+  size_t item_count = peer_ec_point_store->ItemCount();
+  peer_ec_point_store.reset();
+  std::filesystem::rename(partial_path + ".meta",
+                          GetServerCachePath() + ".meta");
+  std::filesystem::rename(partial_path, GetServerCachePath());
 
   yacl::link::Barrier(lctx_, "ubpsi_offline_transfer_cache");
 
-  report_.set_original_count(peer_ec_point_store->ItemCount());
+  report_.set_original_count(item_count);
   report_.set_intersection_count(-1);
 }
 
@@ -106,6 +115,8 @@ void EcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(std::filesystem::exists(GetServerCachePath()),
+                 "no complete server cache at {}", GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
-- 
2.43.0


From 053de1cfa43b535a53133c2bc0ea637b8b4744b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 24/53] fix: the inverse of a key-value store's gap matrix gets
 room for all its entries

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..dd905bb 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,7 +30,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  auto inv = std::vector<uint128_t>(row_size * col_size, 0);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
@@ -103,7 +103,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
     size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  std::vector<uint128_t> ret(row_size, col_size);
+  std::vector<uint128_t> ret(row_size * col_size, 0);
 
   for (uint64_t i = 0; i < row_size; ++i) {
     for (uint64_t j = 0; j < col_size; ++j) {
-- 
2.43.0


From da5072ec7eb0d7404d365d24516092a9d75370d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 25/53] fix: randomising the key-value store fills rows, not
 beyond them

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index dd905bb..6d128d5 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -835,7 +835,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1036,7 +1036,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
-- 
2.43.0


From e7edd34e5509775223291ff83320d42d2a809b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 26/53] fix: threads solving a key-value store do not share one
 generator

---
 psi/algorithm/rr22/okvs/baxos.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 7c7bca0..eb19db7 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -245,6 +245,17 @@ void Baxos::ImplParSolve(
 
   AesCrHash aes_crhasher(seed_);
 
+  // the generator is not thread safe, each thread gets its own.
+  std::vector<std::shared_ptr<yacl::crypto::Prg<uint8_t>>> thrd_prngs(
+      num_threads);
+  if (prng) {
+    for (auto& thrd_prng : thrd_prngs) {
+      uint128_t thrd_seed;
+      prng->Fill(absl::MakeSpan(&thrd_seed, 1));
+      thrd_prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(thrd_seed);
+    }
+  }
+
   std::atomic<uint64_t> num_done(0);
   std::promise<void> hashing_done_prom;
   auto hashing_done_fu = hashing_done_prom.get_future().share();
@@ -440,7 +451,7 @@ void Baxos::ImplParSolve(
 
       paxos.SetInput(rows_mtx, hashes, cols, col_backing, col_weights);
 
-      paxos.Encode(values, output, h, prng);
+      paxos.Encode(values, output, h, thrd_prngs[thrd_idx]);
     }
   };
 
-- 
2.43.0


From 4c73abfcf3ee3f15d93250e4672bf8782ac664d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 27/53] fix: multi-party PSI randomises the free positions of
 its key-value stores

---
 psi/algorithm/nty/nty_mp_psi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..1e86498 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -20,6 +20,7 @@
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/hash/hash_utils.h"
 #include "yacl/crypto/rand/rand.h"
+#include "yacl/crypto/tools/prg.h"
 #include "yacl/utils/serialize.h"
 
 #include "psi/algorithm/rr22/okvs/baxos.h"
@@ -337,7 +338,11 @@ void NtyMPsi::GenOkvs(const std::vector<uint128_t>& items,
   std::vector<uint128_t> p128_v(baxos.size(), 0);
   auto p128_span = absl::MakeSpan(p128_v);
   auto hashed_span = absl::MakeSpan(hashed_items);
-  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, nullptr,
+  // the free positions have to be random, or decoding at other items gives
+  // predictable values.
+  auto prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(
+      yacl::crypto::SecureRandU128());
+  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, prng,
               options_.num_threads);
   psi::rr22::SendChunked(ctx, p128_span);
 }
-- 
2.43.0


From 3565b5246549c92c0bceb94eddd371a8cd551978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 28/53] fix: shares are received by party, not by item, in
 KMPRT multi-party PSI

---
 experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
index d8a38ec..5c88a15 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
@@ -97,7 +97,7 @@ auto KmprtParty::SwapShares(const std::vector<uint128_t>& items,
                             const std::vector<Share>& shares) const -> Share {
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = shares.front().size();
-  std::vector<Share> recv_shares(count);
+  std::vector<Share> recv_shares(wsize);
   std::vector<std::future<Share>> futures(wsize);
   // NOTE: First Send Then Receive for peers of smaller ranks
   for (size_t id{}; id != me; ++id) {
@@ -136,7 +136,7 @@ auto KmprtParty::Reconstruct(const std::vector<uint128_t>& items,
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = items.size();
   if (me == leader) {
-    std::vector<Share> recv_shares(count);
+    std::vector<Share> recv_shares(wsize);
     std::vector<std::future<Share>> futures(wsize);
     for (size_t src{}; src != wsize; ++src) {
       if (me != src) {
-- 
2.43.0


From 9f00303847e968cd06d9b9c0d8015cd21cbfc2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 29/53] fix: spare bins for small sets in KMPRT multi-party PSI

---
 experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
index 28257fa..e27d17b 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc
@@ -36,6 +36,9 @@ namespace {
 // PSI-related constants
 // Ref https://eprint.iacr.org/2017/799.pdf (Table 2)
 constexpr float ZETA[]{1.12f, 0.17f};
+// the ratios hold for large sets, spare bins keep hashing from failing for
+// small ones
+constexpr size_t SPARE_BINS{16};
 // constexpr size_t BETA[]{31, 63};
 constexpr size_t TABLE_SIZE[]{32, 64};  // next power of BETAs
 
@@ -54,8 +57,9 @@ std::vector<uint64_t> KmprtOpprfRecv(
     const std::shared_ptr<yacl::link::Context>& ctx,
     const std::vector<uint128_t>& queries) {
   const size_t size{queries.size()};
-  const size_t bin_sizes[]{static_cast<size_t>(std::ceil(size * ZETA[0])),
-                           static_cast<size_t>(std::ceil(size * ZETA[1]))};
+  const size_t bin_sizes[]{
+      static_cast<size_t>(std::ceil(size * ZETA[0])) + SPARE_BINS,
+      static_cast<size_t>(std::ceil(size * ZETA[1])) + SPARE_BINS};
   // Step 0. Prepares OPRF
   yc::KkrtOtExtReceiver receiver;
   size_t num_ot{bin_sizes[0] + bin_sizes[1]};
@@ -125,8 +129,9 @@ void KmprtOpprfSend(const std::shared_ptr<yacl::link::Context>& ctx,
                     const std::vector<uint64_t>& ys) {
   YACL_ENFORCE_EQ(xs.size(), ys.size(), "Sizes mismatch.");
   const size_t size{xs.size()};
-  const size_t bin_sizes[]{static_cast<size_t>(std::ceil(size * ZETA[0])),
-                           static_cast<size_t>(std::ceil(size * ZETA[1]))};
+  const size_t bin_sizes[]{
+      static_cast<size_t>(std::ceil(size * ZETA[0])) + SPARE_BINS,
+      static_cast<size_t>(std::ceil(size * ZETA[1])) + SPARE_BINS};
   // Step 0. Prepares OPRF
   yc::KkrtOtExtSender sender;
   size_t num_ot{bin_sizes[0] + bin_sizes[1]};
-- 
2.43.0


From f050a25e2d20f7dbcb26ae9af0fac6a6a2d5abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:22 +0000
Subject: [PATCH 30/53] fix: DP-PSI sampling rates are defined for every
 epsilon

---
 psi/legacy/dp_psi/dp_psi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/legacy/dp_psi/dp_psi.h b/psi/legacy/dp_psi/dp_psi.h
index 89f43b2..c50a586 100644
--- a/psi/legacy/dp_psi/dp_psi.h
+++ b/psi/legacy/dp_psi/dp_psi.h
@@ -31,8 +31,8 @@ namespace psi::dp_psi {
 struct DpPsiOptions {
   explicit DpPsiOptions(double bob_p = 0.9, double epsilon = 3.0)
       : p1(bob_p), alice_epsilon(epsilon) {
-    double e_epsilon = std::exp(alice_epsilon);
-    p2 = e_epsilon / (1 + e_epsilon);
+    // e^epsilon / (1 + e^epsilon), which must not overflow for a large epsilon
+    p2 = 1 / (1 + std::exp(-alice_epsilon));
     q = 1 - p2;
     SPDLOG_INFO("DpPsiOptions p1:{} epsilon:{} p2:{}, q:{}", p1, epsilon, p2,
                 q);
-- 
2.43.0


From a4c7fb65157efd8c64b86b08dc31ac982e40329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 31/53] fix: the key-value store always has a dense column

---
 psi/algorithm/rr22/okvs/paxos.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 6d128d5..736d9d9 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -208,8 +208,10 @@ void PaxosParam::Init(uint64_t num_items, uint64_t weight, uint64_t ssp,
     double b = -9.2 - lambda_vs_e * ee;
 
     double e = (this->ssp - b) / lambda_vs_e;
-    this->g =
-        std::floor(this->ssp / ((this->weight - 2) * std::log2(e * num_items)));
+    // the dense part needs at least one column
+    this->g = std::max<uint64_t>(
+        1,
+        std::floor(this->ssp / ((this->weight - 2) * std::log2(e * num_items))));
 
     dense_size = this->g + (dt == PaxosParam::DenseType::Binary) * this->ssp;
     sparse_size = num_items * e;
-- 
2.43.0


From 2384913164a3da789ba1bfddcabc7239332c2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 32/53] fix: a copy of a view of a key-value store's vector is
 not empty

---
 psi/algorithm/rr22/okvs/paxos_utils.h | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos_utils.h b/psi/algorithm/rr22/okvs/paxos_utils.h
index 654a30a..deafe2d 100644
--- a/psi/algorithm/rr22/okvs/paxos_utils.h
+++ b/psi/algorithm/rr22/okvs/paxos_utils.h
@@ -17,6 +17,7 @@
 #include <cstdint>
 #include <memory>
 #include <set>
+#include <utility>
 #include <vector>
 
 #include "absl/types/span.h"
@@ -205,15 +206,15 @@ struct PxVector {
   absl::Span<value_type> elements;
 
   PxVector() = default;
-  PxVector(const PxVector& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // a copy of a vector that only views its elements views the same ones.
+  PxVector(const PxVector& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVector(PxVector&& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVector(PxVector&& v)
+      : owning(std::move(v.owning)), elements(v.elements) {}
 
   PxVector(absl::Span<value_type> e) { elements = e; }
 
@@ -331,15 +332,15 @@ struct PxVectorU64 {
   absl::Span<value_type> elements;
 
   PxVectorU64() = default;
-  PxVectorU64(const PxVectorU64& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // a copy of a vector that only views its elements views the same ones.
+  PxVectorU64(const PxVectorU64& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVectorU64(PxVectorU64&& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVectorU64(PxVectorU64&& v)
+      : owning(std::move(v.owning)), elements(v.elements) {}
 
   PxVectorU64(absl::Span<value_type> e) { elements = e; }
 
-- 
2.43.0


From a0923b8099905b2cc9cf07ea315f495395abb5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 33/53] fix: randomised key-value stores account for free
 columns in the gap's rows

---
 psi/algorithm/rr22/okvs/paxos.cc | 42 +++++++++++++++++++++++++++-----
 psi/algorithm/rr22/okvs/paxos.h  |  9 +++++++
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 736d9d9..6147139 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -835,6 +835,14 @@ void Paxos<IdxType>::BackfillGf128U64(
     }
 
     if (prng) {
+      // x2' = x2 - D' r - FC^-1 x1, see GetX2Prime
+      for (uint64_t i = 0; i < g; ++i) {
+        AddSparse(gap_rows[i][0], output, xx[i], helper);
+        for (auto j : fcinv.mtx[i]) {
+          AddSparse(j, output, xx[i], helper);
+        }
+      }
+
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
         prng->Fill(absl::MakeSpan(&EE[i * size], size));
@@ -1036,6 +1044,14 @@ void Paxos<IdxType>::BackfillGf128(
     }
 
     if (prng) {
+      // x2' = x2 - D' r - FC^-1 x1, see GetX2Prime
+      for (uint64_t i = 0; i < g; ++i) {
+        AddSparse(gap_rows[i][0], output, xx[i], helper);
+        for (auto j : fcinv.mtx[i]) {
+          AddSparse(j, output, xx[i], helper);
+        }
+      }
+
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
         prng->Fill(absl::MakeSpan(&EE[i * size], size));
@@ -1573,9 +1589,16 @@ PxVectorU64 Paxos<IdxType>::GetX2PrimeU64(
     YACL_ENFORCE(P.size() == dense_size + sparse_size);
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D' only cancels for a row in the gap which duplicates
+    // another one. The columns of C cancel whatever P holds there.
+    for (uint64_t i = 0; i < g; ++i) {
+      AddSparse(gap_rows[i][0], P, xx2[i], helper);
+      for (auto j : fcinv.mtx[i]) {
+        AddSparse(j, P, xx2[i], helper);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
@@ -1620,9 +1643,16 @@ PxVector Paxos<IdxType>::GetX2Prime(const FCInv& fcinv,
     YACL_ENFORCE(P.size() == (dense_size + sparse_size));
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D' only cancels for a row in the gap which duplicates
+    // another one. The columns of C cancel whatever P holds there.
+    for (uint64_t i = 0; i < g; ++i) {
+      AddSparse(gap_rows[i][0], P, xx2[i], helper);
+      for (auto j : fcinv.mtx[i]) {
+        AddSparse(j, P, xx2[i], helper);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
diff --git a/psi/algorithm/rr22/okvs/paxos.h b/psi/algorithm/rr22/okvs/paxos.h
index 43e5e28..530e236 100644
--- a/psi/algorithm/rr22/okvs/paxos.h
+++ b/psi/algorithm/rr22/okvs/paxos.h
@@ -234,6 +234,15 @@ class Paxos : public PaxosParam {
   std::vector<uint64_t> GetGapCols(
       const FCInv& fcinv, absl::Span<std::array<IdxType, 2>> gap_rows) const;
 
+  // adds the sparse part of the given row of the paxos matrix, times P, to y.
+  template <typename Vec, typename ValueType>
+  void AddSparse(uint64_t row, const Vec& P, ValueType* y,
+                 const typename Vec::Helper& h) const {
+    for (uint64_t j = 0; j < weight; ++j) {
+      h.Add(y, P[rows_[row * weight + j]]);
+    }
+  }
+
   // returns x2' = x2 - D' r - FC^-1 x1
   PxVector GetX2Prime(const FCInv& fcinv,
                       absl::Span<std::array<IdxType, 2>> gap_rows,
-- 
2.43.0


From e73b7ee5baa2e27cbb8426d065df706541a5f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 34/53] fix: copies of a dense matrix do not share its data

---
 psi/algorithm/rr22/okvs/dense_mtx.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/dense_mtx.h b/psi/algorithm/rr22/okvs/dense_mtx.h
index 00eacb8..fc7fd76 100644
--- a/psi/algorithm/rr22/okvs/dense_mtx.h
+++ b/psi/algorithm/rr22/okvs/dense_mtx.h
@@ -196,10 +196,17 @@ class DenseMtx {
   uint64_t cols_ = 0;
 
   DenseMtx() = default;
-  DenseMtx(const DenseMtx&) = default;
+  DenseMtx(const DenseMtx& m) { *this = m; }
   DenseMtx(DenseMtx&&) = default;
 
-  DenseMtx& operator=(const DenseMtx&) = default;
+  // the view of a copy refers to the copy's own data.
+  DenseMtx& operator=(const DenseMtx& m) {
+    if (this != &m) {
+      resize(m.bit_rows_, m.cols_);
+      data_.assign(m.data_.begin(), m.data_.end());
+    }
+    return *this;
+  }
   DenseMtx& operator=(DenseMtx&&) = default;
 
   DenseMtx(uint64_t rows, uint64_t cols) { resize(rows, cols); }
-- 
2.43.0


From 0f7a9d506c5e61a029781c5f6bc0d6328ce26a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 35/53] fix: RR22 reserved the all-zero value in its lookup
 table, which a peer's message may contain

---
 psi/algorithm/rr22/BUILD.bazel   | 1 +
 psi/algorithm/rr22/rr22_utils.cc | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/BUILD.bazel b/psi/algorithm/rr22/BUILD.bazel
index 71d54a1..7f5fa84 100644
--- a/psi/algorithm/rr22/BUILD.bazel
+++ b/psi/algorithm/rr22/BUILD.bazel
@@ -88,6 +88,7 @@ psi_cc_library(
         "@sparsehash",
         "@yacl//yacl/base:buffer",
         "@yacl//yacl/base:int128",
+        "@yacl//yacl/crypto/rand",
         "@yacl//yacl/link",
         "@yacl//yacl/utils:parallel",
     ],
diff --git a/psi/algorithm/rr22/rr22_utils.cc b/psi/algorithm/rr22/rr22_utils.cc
index 2a00c0a..cc2a619 100644
--- a/psi/algorithm/rr22/rr22_utils.cc
+++ b/psi/algorithm/rr22/rr22_utils.cc
@@ -27,6 +27,7 @@
 #include "absl/types/span.h"
 #include "libdivide.h"
 #include "sparsehash/dense_hash_map"
+#include "yacl/crypto/rand/rand.h"
 #include "yacl/utils/parallel.h"
 
 #include "psi/algorithm/rr22/okvs/galois128.h"
@@ -70,7 +71,7 @@ std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionReceiver(
   bool compress = mask_size != sizeof(uint128_t);
   google::dense_hash_map<uint128_t, size_t, NoHash> dense_map(
       self_oprfs.size());
-  dense_map.set_empty_key(yacl::MakeUint128(0, 0));
+  dense_map.set_empty_key(yacl::crypto::RandU128());
   auto map_f = std::async([&]() {
     auto truncate_mask = yacl::MakeUint128(0, 0);
     if (compress) {
@@ -170,7 +171,7 @@ std::vector<uint32_t> GetIntersectionReceiver(
   bool compress = mask_size != sizeof(uint128_t);
   google::dense_hash_map<uint128_t, size_t, NoHash> dense_map(
       self_oprfs.size());
-  dense_map.set_empty_key(yacl::MakeUint128(0, 0));
+  dense_map.set_empty_key(yacl::crypto::RandU128());
   auto map_f = std::async([&]() {
     auto truncate_mask = yacl::MakeUint128(0, 0);
     if (compress) {
-- 
2.43.0


From c14fe37895eb4431f2deb113d9b29c10bdb1ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 36/53] fix: failed writes of key, index and result files went
 unnoticed (wrong results reported as success on a full disk)

---
 psi/utils/index_store.cc    |  6 +++---
 psi/utils/io.cc             | 10 ++++++----
 psi/utils/join_processor.cc |  2 ++
 psi/utils/pb_helper.cc      |  1 +
 psi/utils/table_utils.cc    |  3 ++-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..010f171 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -39,10 +39,10 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
     {
-      std::ofstream file(path_);
+      auto file = io::GetStdOutFileStream(path_);
 
-      file << absl::StrJoin(fields, ",") << '\n';
-      file.close();
+      *file << absl::StrJoin(fields, ",") << '\n';
+      file->close();
     }
   }
   outfile_ = io::GetArrowOutputStream(path_, true);
diff --git a/psi/utils/io.cc b/psi/utils/io.cc
index 67d8ca6..e1e28ae 100644
--- a/psi/utils/io.cc
+++ b/psi/utils/io.cc
@@ -111,10 +111,12 @@ std::shared_ptr<std::ofstream> GetStdOutFileStream(const std::string& filename,
                 filename, path.parent_path().string());
     std::filesystem::create_directories(path.parent_path());
   }
-  if (append) {
-    return std::make_shared<std::ofstream>(path, std::ios_base::app);
-  }
-  return std::make_shared<std::ofstream>(path);
+  auto ofs = std::make_shared<std::ofstream>(
+      path, append ? std::ios_base::app : std::ios_base::out);
+  YACL_ENFORCE(ofs->good(), "open file {} failed", filename);
+  // a failed write, e.g. on a full disk, must not go unnoticed.
+  ofs->exceptions(std::ofstream::badbit | std::ofstream::failbit);
+  return ofs;
 }
 
 }  // namespace psi::io
diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 8e56b34..0ca7ad1 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -336,6 +336,8 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
     write_na(peer_except_cnt);
   }
 
+  ofs->close();
+
   SPDLOG_INFO("end generate result file: {}", output_path_);
 }
 
diff --git a/psi/utils/pb_helper.cc b/psi/utils/pb_helper.cc
index edc16af..8b3e40a 100644
--- a/psi/utils/pb_helper.cc
+++ b/psi/utils/pb_helper.cc
@@ -32,6 +32,7 @@ void DumpPbMessageToJsonFile(const google::protobuf::Message& msg,
 
   auto ofs = io::GetStdOutFileStream(json_file);
   *ofs << json;
+  ofs->close();
   YACL_ENFORCE(ofs->good(), "save json file {} failed.", json_file);
 }
 
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 3f47928..081c7c4 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -319,7 +319,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     }
   }
 
-  std::ofstream out(path);
+  auto ofs = io::GetStdOutFileStream(path);
+  auto& out = *ofs;
   yacl::crypto::Sha256Hash hash;
   uint32_t duplicate_key_cnt = 0;
   uint32_t unique_key_cnt = 0;
-- 
2.43.0


From 0c8f0580d7c93a21464b629182a0139937c0941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 37/53] fix: IPP masking threads wrote to one shared scratch
 buffer (data race)

---
 psi/cryptor/ipp_ecc_cryptor.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/psi/cryptor/ipp_ecc_cryptor.cc b/psi/cryptor/ipp_ecc_cryptor.cc
index a400030..a7e534b 100644
--- a/psi/cryptor/ipp_ecc_cryptor.cc
+++ b/psi/cryptor/ipp_ecc_cryptor.cc
@@ -34,10 +34,9 @@ std::vector<EcPoint> IppEccCryptor::EccMask(
   std::fill(ptr_sk.begin(), ptr_sk.end(),
             static_cast<const int8u *>(&private_key_[0]));
 
-  int8u key_data[8][32];  // Junk buffer
-
-  auto mask_functor = [&ptr_sk, &key_data](absl::Span<const EcPoint> in,
-                                           absl::Span<EcPoint> out) {
+  auto mask_functor = [&ptr_sk](absl::Span<const EcPoint> in,
+                                absl::Span<EcPoint> out) {
+    int8u key_data[8][32];  // Junk buffer, one per call: calls run in parallel
     size_t current_batch_size = in.size();
 
     std::array<const int8u *, 8> ptr_pk;
-- 
2.43.0


From adabcb08fbf04643fec5c31adfdb66ae7ff57764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 38/53] fix: CURVE_SECP256K1 computed on the SM2 curve

---
 psi/cryptor/sm2_cryptor.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psi/cryptor/sm2_cryptor.h b/psi/cryptor/sm2_cryptor.h
index 0c63741..2ce3a0b 100644
--- a/psi/cryptor/sm2_cryptor.h
+++ b/psi/cryptor/sm2_cryptor.h
@@ -29,7 +29,7 @@ class Sm2Cryptor : public IEccCryptor {
   explicit Sm2Cryptor(CurveType type = CurveType::CURVE_SM2)
       : curve_type_(type) {
     ec_group_ = yacl::crypto::EcGroupFactory::Instance().Create(
-        "sm2", yacl::ArgLib = "openssl");
+        GetEcGroupName(type), yacl::ArgLib = "openssl");
   }
 
   explicit Sm2Cryptor(absl::Span<const uint8_t> key,
@@ -38,7 +38,7 @@ class Sm2Cryptor : public IEccCryptor {
     YACL_ENFORCE(key.size() == kEccKeySize);
     std::copy(key.begin(), key.end(), private_key_.begin());
     ec_group_ = yacl::crypto::EcGroupFactory::Instance().Create(
-        "sm2", yacl::ArgLib = "openssl");
+        GetEcGroupName(type), yacl::ArgLib = "openssl");
   }
 
   ~Sm2Cryptor() override { OPENSSL_cleanse(&private_key_[0], kEccKeySize); }
@@ -60,6 +60,10 @@ class Sm2Cryptor : public IEccCryptor {
     }
   }
 
+  static const char* GetEcGroupName(CurveType type) {
+    return GetEcGroupId(type) == NID_secp256k1 ? "secp256k1" : "sm2";
+  }
+
  private:
   CurveType curve_type_ = CurveType::CURVE_SM2;
 };
-- 
2.43.0


From 05dc1d68503d82b4681ebb770de90e8cb5afbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 39/53] fix: elligator2 points reached x25519 in the wrong byte
 order (not on the curve, or outside the prime-order group)

---
 psi/cryptor/ipp_ecc_cryptor.cc           | 5 ++++-
 psi/cryptor/sodium_curve25519_cryptor.cc | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/psi/cryptor/ipp_ecc_cryptor.cc b/psi/cryptor/ipp_ecc_cryptor.cc
index a7e534b..c51483b 100644
--- a/psi/cryptor/ipp_ecc_cryptor.cc
+++ b/psi/cryptor/ipp_ecc_cryptor.cc
@@ -91,7 +91,10 @@ yacl::crypto::EcPoint IppEccCryptor::DeserializeEcPoint(
 
 EcPoint IppElligator2Cryptor::HashToCurve(
     absl::Span<const char> item_data) const {
-  return HashToCurveElligator2(item_data);
+  // the hash is big-endian, x25519 reads its points as little-endian.
+  auto point = HashToCurveElligator2(item_data);
+  std::reverse(point.begin(), point.end());
+  return point;
 }
 
 }  // namespace psi
diff --git a/psi/cryptor/sodium_curve25519_cryptor.cc b/psi/cryptor/sodium_curve25519_cryptor.cc
index 54a02f4..b4b902a 100644
--- a/psi/cryptor/sodium_curve25519_cryptor.cc
+++ b/psi/cryptor/sodium_curve25519_cryptor.cc
@@ -14,6 +14,7 @@
 
 #include "psi/cryptor/sodium_curve25519_cryptor.h"
 
+#include <algorithm>
 #include <iostream>
 
 #include "yacl/crypto/hash/hash_utils.h"
@@ -50,7 +51,10 @@ std::vector<uint8_t> SodiumCurve25519Cryptor::KeyExchange(
 
 yacl::crypto::EcPoint SodiumElligator2Cryptor::HashToCurve(
     absl::Span<const char> item_data) const {
-  return HashToCurveElligator2(item_data);
+  // the hash is big-endian, x25519 reads its points as little-endian.
+  auto point = HashToCurveElligator2(item_data);
+  std::reverse(point.begin(), point.end());
+  return point;
 }
 
 }  // namespace psi
-- 
2.43.0


From 22ba67602fbc816255d9590a8c18448ac9acebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 40/53] fix: the KKRT sender ignored ot_batch_size (a size
 other than the sender's constant failed)

---
 psi/algorithm/kkrt/kkrt_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 7332120..993fa2d 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -134,7 +134,7 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
 
   yacl::crypto::KkrtOtExtSender sender;
   sender.Init(link_ctx, ot_recv, option.NumBins());
-  sender.SetBatchSize(kKkrtOtBatchSize);
+  sender.SetBatchSize(kkrt_psi_options.ot_batch_size);
   uint64_t kkrtOtBatchSize = sender.GetBatchSize();
 
   std::atomic<uint64_t> recv_idx(0);
-- 
2.43.0


From fc8687d3d11241419130dd357483a8c146973778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 41/53] fix: a FourQ point from the peer was read beyond its
 end when too short

---
 psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc b/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
index eb52041..af6ead7 100644
--- a/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
+++ b/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
@@ -272,6 +272,8 @@ std::string FourQPointMul(absl::string_view sk_bytes,
   point_t A;
   ECCRYPTO_STATUS status = ECCRYPTO_ERROR_UNKNOWN;
 
+  YACL_ENFORCE(point_bytes.size() == kEccKeySize,
+               "fourq invalid point size = {}", point_bytes.size());
   if ((point_bytes[15] & 0x80) != 0) {  // Is bit128(PublicKey) = 0?
     status = ECCRYPTO_ERROR_INVALID_PARAMETER;
     YACL_THROW("fourq invalid point status = {}", static_cast<int>(status));
-- 
2.43.0


From 4e3a164b075977719e27ef7d0d42cee6676836ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 42/53] fix: spiral gadget inversion reads its input by row and
 column

---
 psi/algorithm/spiral/gadget.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/spiral/gadget.cc b/psi/algorithm/spiral/gadget.cc
index dc43d26..f759759 100644
--- a/psi/algorithm/spiral/gadget.cc
+++ b/psi/algorithm/spiral/gadget.cc
@@ -63,7 +63,7 @@ void GadgetInvertRdim(const Params& params, PolyMatrixRaw& out,
   uint64_t mask = (static_cast<uint64_t>(1) << bits_per) - 1;
   for (size_t i = 0; i < in.Cols(); ++i) {
     for (size_t j = 0; j < rdim; ++j) {
-      auto poly = in.Poly(i, j);
+      auto poly = in.Poly(j, i);
       for (size_t z = 0; z < params.PolyLen(); ++z) {
         uint64_t val = poly[z];
         for (size_t k = 0; k < num_elements; ++k) {
-- 
2.43.0


From be9552da60fa798d08baa9c75237e122ee597009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 43/53] fix: choose spiral dimensions that satisfy the
 expansion limits for every database size

---
 psi/algorithm/spiral/params.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/psi/algorithm/spiral/params.cc b/psi/algorithm/spiral/params.cc
index ce417e6..f2dd7b0 100644
--- a/psi/algorithm/spiral/params.cc
+++ b/psi/algorithm/spiral/params.cc
@@ -135,6 +135,17 @@ size_t Params::UpdateByDatabaseInfo(const DatabaseMetaInfo& database_info) {
     while (static_cast<size_t>(1 << (v1 + v2)) < plaintext_size) {
       v2 += 1;
     }
+    // move dimensions to the first one until ValidCheck's limits on G hold
+    auto expansion_fits = [&]() {
+      size_t needed = TGsw() * v2 + (static_cast<size_t>(1) << v1);
+      size_t g_half = static_cast<size_t>(1)
+                      << (arith::Log2Ceil(static_cast<uint64_t>(needed)) - 1);
+      return g_half >= (static_cast<size_t>(1) << v1) && g_half >= TGsw() * v2;
+    };
+    while (v2 > 1 && !expansion_fits()) {
+      v1 += 1;
+      v2 -= 1;
+    }
   }
   // set v1 and v2
   SetDbDim1(v1);
-- 
2.43.0


From de9f2a0b04bf13b3b7276e54da478cd1f67773d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 44/53] fix: simplepir noise and decoding work modulo q, not
 modulo 2^64

---
 experiment/pir/simplepir/client.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 3470a2a..0f8d94e 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -14,6 +14,7 @@
 
 #include "experiment/pir/simplepir/client.h"
 
+#include <cstdlib>
 #include <vector>
 
 #include "yacl/crypto/tools/prg.h"
@@ -71,9 +72,13 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
   s_ = GenerateRandomVector(dimension_, q_);
   std::vector<uint64_t> qu(row_num);
   for (size_t i = 0; i < row_num; i++) {
-    qu[i] = InnerProductModq(A_[i], s_, q_) + u_i_col[i];
-    qu[i] += static_cast<uint64_t>(error_vec[i]);
-    qu[i] %= q_;
+    // Maps the signed error into Z_q
+    uint64_t magnitude = static_cast<uint64_t>(std::abs(error_vec[i])) % q_;
+    uint64_t error_mod_q = error_vec[i] < 0 ? q_ - magnitude : magnitude;
+    uint128_t sum = InnerProductModq(A_[i], s_, q_);
+    sum += u_i_col[i];
+    sum += error_mod_q;
+    qu[i] = static_cast<uint64_t>(sum % q_);
   }
 
   return qu;
@@ -81,7 +86,9 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
 
 uint64_t SimplePirClient::Recover(const std::vector<uint64_t> &ans) {
   // Computes d_ = ans - hint*s mod q
-  uint64_t phase = ans[idx_row_] - InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t masked = ans[idx_row_];
+  uint64_t mask = InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t phase = masked >= mask ? masked - mask : masked + (q_ - mask);
 
   // Handles modular rounding: Map from Z_q to Z_p
   uint64_t d =
-- 
2.43.0


From 1db3b430137b678c4bfbf427a9dfcfa0d30226e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 45/53] fix: result files of keyed retrieval have one header,
 quoted fields and report failed writes

---
 psi/wrapper/apsi/utils/common.cc | 34 +++++++++++++++++++++++---------
 psi/wrapper/apsi/utils/common.h  |  3 +++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 08c585e..5c6733c 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -54,6 +54,20 @@ const string Colors::RedBold = "\033[1;31m";
 const string Colors::GreenBold = "\033[1;32m";
 const string Colors::Reset = "\033[0m";
 
+std::string QuoteCsvField(const std::string &field) {
+  if (field.find_first_of(",\"\r\n") == std::string::npos) {
+    return field;
+  }
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted += '"';
+    }
+    quoted += c;
+  }
+  return quoted + "\"";
+}
+
 std::shared_ptr<arrow::csv::StreamingReader> MakeArrowCsvReader(
     const std::string &file_name, std::vector<std::string> column_names) {
   std::unordered_map<std::string, std::shared_ptr<arrow::DataType>>
@@ -226,13 +240,13 @@ int print_intersection_results(
     if (intersection[i].found) {
       match_cnt++;
       msg << Colors::GreenBold << orig_items[i] << Colors::Reset << "(FOUND) ";
-      csv_output << orig_items[i];
+      csv_output << QuoteCsvField(orig_items[i]);
       if (intersection[i].label) {
         msg << ": ";
         msg << Colors::GreenBold << intersection[i].label.to_string()
             << Colors::Reset;
-        csv_output << "," << intersection[i].label.to_string();
-        csv_header += ",value";
+        csv_output << "," << QuoteCsvField(intersection[i].label.to_string());
+        csv_header = "key,value";
       }
       csv_output << endl;
       APSI_LOG_INFO(msg.str());
@@ -243,13 +257,15 @@ int print_intersection_results(
   }
 
   if (!out_file.empty()) {
-    if (append_to_outfile) {
-      std::ofstream ofs(out_file, std::ios_base::app);
-      ofs << csv_output.str();
-    } else {
-      std::ofstream ofs(out_file);
+    std::ofstream ofs(out_file,
+                      append_to_outfile ? std::ios_base::app : ios_base::out);
+    if (!append_to_outfile) {
       ofs << csv_header << endl;
-      ofs << csv_output.str();
+    }
+    ofs << csv_output.str();
+    ofs.close();
+    if (!ofs.good()) {
+      throw runtime_error("Could not write output file " + out_file);
     }
 
     APSI_LOG_INFO("Wrote output to " << out_file);
diff --git a/psi/wrapper/apsi/utils/common.h b/psi/wrapper/apsi/utils/common.h
index 0284d52..357c3ce 100644
--- a/psi/wrapper/apsi/utils/common.h
+++ b/psi/wrapper/apsi/utils/common.h
@@ -57,6 +57,9 @@ int stream_intersection_results(
     const std::vector<::apsi::receiver::MatchRecord> &intersection,
     std::vector<std::string> &keys, std::vector<std::string> &values);
 
+// Quotes a CSV field if it cannot be written as it is.
+std::string QuoteCsvField(const std::string &field);
+
 std::shared_ptr<arrow::csv::StreamingReader> MakeArrowCsvReader(
     const std::string &file_name, std::vector<std::string> column_names);
 
-- 
2.43.0


From 81367f4837af0331f7dbbfd72f05c5343f612baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 46/53] fix: csv converter quotes fields that need it and
 reports failed writes

---
 psi/utils/csv_converter.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b11c91a..c7c07c1 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -44,14 +44,16 @@ void WriteCsvFile(
 
   writer << "key,value\n";
   for (const auto& [key, value_count_pair] : key_value_map) {
+    writer << apsi_wrapper::QuoteCsvField(key) << ",";
     if (is_count) {
-      writer << key << "," << value_count_pair.second << "\n";
+      writer << value_count_pair.second << "\n";
     } else {
-      writer << key << "," << value_count_pair.first << "\n";
+      writer << apsi_wrapper::QuoteCsvField(value_count_pair.first) << "\n";
     }
   }
 
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", file_path);
 }
 
 std::shared_ptr<arrow::csv::StreamingReader> MakeStreamingReader(
@@ -200,10 +202,11 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
 
   writer << "key\n";
   for (const auto& query : queries) {
-    writer << query << "\n";
+    writer << apsi_wrapper::QuoteCsvField(query) << "\n";
   }
 
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", query_file_path);
   SPDLOG_INFO("Write query file: {}", query_file_path);
 }
 
@@ -216,9 +219,9 @@ int ApsiCsvConverter::ExtractResult(
   int total_row_cnt = 0;
 
   std::stringstream csv_output;
-  csv_output << key_name;
+  csv_output << apsi_wrapper::QuoteCsvField(key_name);
   for (const auto& name : label_names) {
-    csv_output << "," << name;
+    csv_output << "," << apsi_wrapper::QuoteCsvField(name);
   }
   csv_output << "\n";
 
@@ -263,9 +266,9 @@ int ApsiCsvConverter::ExtractResult(
             "Incorrect value:{}, which cannot be split into {} labels.",
             row_value, label_names.size());
 
-        csv_output << current_key;
+        csv_output << apsi_wrapper::QuoteCsvField(current_key);
         for (auto& label : current_labels) {
-          csv_output << "," << label;
+          csv_output << "," << apsi_wrapper::QuoteCsvField(label);
         }
         csv_output << "\n";
       }
@@ -275,6 +278,7 @@ int ApsiCsvConverter::ExtractResult(
   std::ofstream writer(result_file_path);
   writer << csv_output.str();
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", result_file_path);
   SPDLOG_INFO("Write result file: {}", result_file_path);
 
   return total_row_cnt;
-- 
2.43.0


From a533294158c85679ccbb95bcd676f1c183bcca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 47/53] fix: keyed retrieval tables keep embedded quotes and
 read errors are reported

---
 psi/wrapper/apsi/utils/csv_reader.cc | 35 +++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index ad96237..cdd7db7 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -48,6 +48,22 @@ using namespace apsi::util;
 
 namespace psi::apsi_wrapper {
 
+namespace {
+
+// Quotes within a quoted CSV field are doubled.
+std::string Quoted(const std::string& field) {
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted += '"';
+    }
+    quoted += c;
+  }
+  return quoted + "\"";
+}
+
+}  // namespace
+
 std::vector<std::string> GetCsvColumnNames(const std::string& filename) {
   std::ifstream csv_file(filename);
   std::string line;
@@ -104,9 +120,7 @@ auto ApsiCsvReader::read() -> pair<DBData, vector<string>> {
     // Attempt to read the first RecordBatch
     arrow::Status status = reader_->ReadNext(&batch);
 
-    if (!status.ok()) {
-      APSI_LOG_ERROR("Read csv error.");
-    }
+    YACL_ENFORCE(status.ok(), "Read csv error.");
 
     if (batch == nullptr) {
       // Handle end of file
@@ -190,9 +204,7 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
     // Attempt to read the first RecordBatch
     arrow::Status status = reader_->ReadNext(&batch);
 
-    if (!status.ok()) {
-      APSI_LOG_ERROR("Read csv error.");
-    }
+    YACL_ENFORCE(status.ok(), "Read csv error.");
 
     if (batch == nullptr) {
       // Handle end of file
@@ -218,9 +230,10 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
       auto& out = bucket_os_vec[bucket_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("\"{}\"\n", item));
+        out->Write(fmt::format("{}\n", Quoted(item)));
       } else {
-        out->Write(fmt::format("\"{}\",\"{}\"\n", item, arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{}\n", Quoted(item),
+                               Quoted(std::string(arrays_[1]->Value(i)))));
       }
     }
   }
@@ -297,10 +310,10 @@ void ApsiCsvReader::GroupBucketize(size_t bucket_cnt,
       auto& out = bucket_group_vec[group_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("{},\"{}\"\n", bucket_idx, item));
+        out->Write(fmt::format("{},{}\n", bucket_idx, Quoted(item)));
       } else {
-        out->Write(fmt::format("{},\"{}\",\"{}\"\n", bucket_idx, item,
-                               arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{},{}\n", bucket_idx, Quoted(item),
+                               Quoted(std::string(arrays_[1]->Value(i)))));
       }
     }
   }
-- 
2.43.0


From 44f21a76a9aff1497e6e05ac6b2e75537e5d9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 48/53] fix: dkpir result files quote fields that need it and
 report failed writes

---
 psi/algorithm/dkpir/common.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/dkpir/common.cc b/psi/algorithm/dkpir/common.cc
index 042d65b..9664f52 100644
--- a/psi/algorithm/dkpir/common.cc
+++ b/psi/algorithm/dkpir/common.cc
@@ -97,9 +97,11 @@ void WriteIntersectionResults(
   if (skip_count_check) {
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[i].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::QuoteCsvField(orig_items[i]);
         if (intersection[i].label) {
-          csv_output << "," << intersection[i].label.to_string();
+          csv_output << ","
+                     << psi::apsi_wrapper::QuoteCsvField(
+                            intersection[i].label.to_string());
         }
         csv_output << std::endl;
       }
@@ -115,10 +117,11 @@ void WriteIntersectionResults(
 
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[shuffle_indexes[i]].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::QuoteCsvField(orig_items[i]);
         if (intersection[shuffle_indexes[i]].label) {
           csv_output << ","
-                     << intersection[shuffle_indexes[i]].label.to_string();
+                     << psi::apsi_wrapper::QuoteCsvField(
+                            intersection[shuffle_indexes[i]].label.to_string());
         }
         csv_output << std::endl;
       }
@@ -126,14 +129,14 @@ void WriteIntersectionResults(
   }
 
   if (!out_file.empty()) {
-    if (append_to_outfile) {
-      std::ofstream ofs(out_file, std::ios_base::app);
-      ofs << csv_output.str();
-    } else {
-      std::ofstream ofs(out_file);
+    std::ofstream ofs(
+        out_file, append_to_outfile ? std::ios_base::app : std::ios_base::out);
+    if (!append_to_outfile) {
       ofs << csv_header << std::endl;
-      ofs << csv_output.str();
     }
+    ofs << csv_output.str();
+    ofs.close();
+    YACL_ENFORCE(ofs.good(), "Write output file {} failed.", out_file);
 
     APSI_LOG_INFO("Wrote output to " << out_file);
   }
-- 
2.43.0


From 3588362a1c8c4828c067606bf9ef386f7a888b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 49/53] fix: status and groups of the keyed retrieval database
 appear only once wholly written

---
 psi/wrapper/apsi/utils/group_db.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 9777c51..ac966ef 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -393,12 +393,19 @@ void GroupDBItem::Generate() {
   }
 
   flush_proc();
+  ofs.close();
 
-  std::ofstream meta_ofs(meta_filename_);
+  // The meta file marks the group as complete: it appears only with its whole
+  // content, after the data.
+  const std::string tmp_meta_filename = meta_filename_ + ".tmp";
+  std::ofstream meta_ofs(tmp_meta_filename);
+  meta_ofs.exceptions(std::ios_base::badbit | std::ios_base::failbit);
   meta_ofs << bucket_offset_map_.size() << '\n';
   for (auto& [bucket_id, offset] : bucket_offset_map_) {
     meta_ofs << bucket_id << " " << offset << '\n';
   }
+  meta_ofs.close();
+  std::filesystem::rename(tmp_meta_filename, meta_filename_);
 
   complete_ = true;
 }
@@ -426,10 +433,14 @@ void SaveStatus(const std::string& status_file, const GroupDBStatus& status) {
     std::filesystem::create_directories(
         std::filesystem::path(status_file).parent_path());
   }
-  std::ofstream ofs(status_file);
+  // a crash leaves either the old status or the new one
+  const std::string tmp_file = status_file + ".tmp";
+  std::ofstream ofs(tmp_file);
   ofs << json;
+  ofs.close();
   YACL_ENFORCE(ofs.good(), "save {} to status file {} failed.", json,
                status_file);
+  std::filesystem::rename(tmp_file, status_file);
 }
 
 GroupDB::GroupDB(const std::string& db_path)
-- 
2.43.0


From e60aeb3f8f75d61700816118b8204cd01b77f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:32 +0000
Subject: [PATCH 50/53] fix: an interrupted division of a keyed retrieval
 database can be repeated

---
 psi/wrapper/apsi/utils/group_db.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index ac966ef..b66a0fe 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -529,6 +529,11 @@ void GroupDB::DivideGroup() {
     std::filesystem::create_directories(db_path_);
   }
 
+  // The group files are appended to: drop what an interrupted run left.
+  for (size_t i = 0; i < group_cnt_; ++i) {
+    std::filesystem::remove(disk_cache_.GetPath(i));
+  }
+
   ApsiCsvReader reader(source_file_);
   reader.GroupBucketize(num_buckets_, db_path_, group_cnt_, disk_cache_);
 
-- 
2.43.0


From 1c4ec8dfd18c555e79fadba015a9b00b1efb9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:16 +0000
Subject: [PATCH 51/53] hooks: batch sizes become variables under
 PSI_VERIF_HOOKS

---
 psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h | 4 ++++
 psi/algorithm/kkrt/kkrt_psi.cc            | 6 ++++++
 psi/algorithm/nty/nty_mp_psi.h            | 5 +++++
 psi/algorithm/rr22/rr22_psi.h             | 5 +++++
 psi/legacy/dp_psi/dp_psi.cc               | 6 ++++++
 psi/utils/batch_provider_impl.cc          | 4 ++++
 psi/utils/communication.h                 | 4 ++++
 psi/utils/index_store.h                   | 4 ++++
 psi/utils/table_utils.h                   | 4 ++++
 9 files changed, 42 insertions(+)

diff --git a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
index ef056f8..acd3f85 100644
--- a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
+++ b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
@@ -67,7 +67,11 @@ namespace psi::ecdh {
 
 // send queque capacity
 inline constexpr size_t kQueueCapacity = 32;
+#ifdef PSI_VERIF_HOOKS
+inline size_t kEcdhOprfPsiBatchSize = 8192;
+#else
 inline constexpr size_t kEcdhOprfPsiBatchSize = 8192;
+#endif
 
 struct EcdhOprfPsiOptions {
   // Provides the link for server's evaluated data.
diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 993fa2d..9b4f26d 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -36,9 +36,15 @@
 
 namespace psi::kkrt {
 
+#ifdef PSI_VERIF_HOOKS
+size_t kPsiDataBatchSize = 1024;
+#endif
+
 namespace {
+#ifndef PSI_VERIF_HOOKS
 // constexpr size_t kPsiDataBatchSize = 1 << 10;
 constexpr size_t kPsiDataBatchSize = 1024;
+#endif
 constexpr size_t kStashSize = 0;
 constexpr size_t kCuckooHashNum = 3;
 constexpr size_t kStatSecParam = 40;
diff --git a/psi/algorithm/nty/nty_mp_psi.h b/psi/algorithm/nty/nty_mp_psi.h
index 5f13bd4..4576cfb 100644
--- a/psi/algorithm/nty/nty_mp_psi.h
+++ b/psi/algorithm/nty/nty_mp_psi.h
@@ -91,7 +91,12 @@ class NtyMPsi {
 
   NtyMPsiOptions options_;
   std::vector<std::shared_ptr<yacl::link::Context>> p2p_;
+#ifdef PSI_VERIF_HOOKS
+  static inline uint64_t default_bin_size = 1 << 14;
+  uint64_t bin_size_ = default_bin_size;
+#else
   uint64_t bin_size_ = 1 << 14;
+#endif
   uint64_t paxos_weight_ = 3;
 };
 
diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index b8a9ae5..753598a 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -72,7 +72,12 @@ struct Rr22PsiOptions {
   bool malicious = false;
 
   yacl::crypto::CodeType code_type = yacl::crypto::CodeType::ExAcc7;
+#ifdef PSI_VERIF_HOOKS
+  static inline size_t default_oprf_bin_size = 1 << 14;
+  const size_t oprf_bin_size = default_oprf_bin_size;
+#else
   const size_t oprf_bin_size = 1 << 14;
+#endif
 };
 
 using PreProcessFunc =
diff --git a/psi/legacy/dp_psi/dp_psi.cc b/psi/legacy/dp_psi/dp_psi.cc
index 34a1773..8db7b11 100644
--- a/psi/legacy/dp_psi/dp_psi.cc
+++ b/psi/legacy/dp_psi/dp_psi.cc
@@ -36,9 +36,15 @@
 
 namespace psi::dp_psi {
 
+#ifdef PSI_VERIF_HOOKS
+uint64_t kSendBatchSize = 8192;
+#endif
+
 namespace {
 
+#ifndef PSI_VERIF_HOOKS
 constexpr uint64_t kSendBatchSize = 8192;
+#endif
 
 std::vector<size_t> BernoulliSamples(const std::vector<size_t>& items_idx,
                                      double q) {
diff --git a/psi/utils/batch_provider_impl.cc b/psi/utils/batch_provider_impl.cc
index 54fbe86..02d464f 100644
--- a/psi/utils/batch_provider_impl.cc
+++ b/psi/utils/batch_provider_impl.cc
@@ -38,9 +38,13 @@
 
 namespace psi {
 
+#ifdef PSI_VERIF_HOOKS
+size_t kDefaultBatchSize = 1 << 20;
+#else
 namespace {
 constexpr size_t kDefaultBatchSize = 1 << 20;
 }
+#endif
 
 MemoryBatchProvider::MemoryBatchProvider(const std::vector<std::string>& items,
                                          size_t batch_size,
diff --git a/psi/utils/communication.h b/psi/utils/communication.h
index 6733b7d..e8c5031 100644
--- a/psi/utils/communication.h
+++ b/psi/utils/communication.h
@@ -26,7 +26,11 @@
 
 namespace psi {
 
+#ifdef PSI_VERIF_HOOKS
+inline size_t kEcdhPsiBatchSize = 4096;
+#else
 inline constexpr size_t kEcdhPsiBatchSize = 4096;
+#endif
 
 // Ecc256 requires 32 bytes.
 inline constexpr size_t kKeySize = 32;
diff --git a/psi/utils/index_store.h b/psi/utils/index_store.h
index 131be8d..98ac621 100644
--- a/psi/utils/index_store.h
+++ b/psi/utils/index_store.h
@@ -35,7 +35,11 @@ namespace psi {
 constexpr char kIdx[] = "psi_index";
 constexpr char kPeerCnt[] = "psi_peer_cnt";
 
+#ifdef PSI_VERIF_HOOKS
+inline size_t kIndexWriterCacheSize = 1 << 10;
+#else
 constexpr size_t kIndexWriterCacheSize = 1 << 10;
+#endif
 
 class IndexWriter {
  public:
diff --git a/psi/utils/table_utils.h b/psi/utils/table_utils.h
index 2a2a63d..7e2f210 100644
--- a/psi/utils/table_utils.h
+++ b/psi/utils/table_utils.h
@@ -36,7 +36,11 @@
 
 namespace psi {
 
+#ifdef PSI_VERIF_HOOKS
+inline size_t kBatchSize = 1 << 16;
+#else
 constexpr size_t kBatchSize = 1 << 16;
+#endif
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns);
 
-- 
2.43.0


From fd87d905ff45b4a94b2ab9838114805e94670b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 52/53] fix: a crash between the creation and the header of the
 index file made every resume fail

---
 psi/utils/index_store.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index 010f171..1041c2c 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -34,7 +34,9 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
-  if (trunc || !std::filesystem::exists(path_)) {
+  // An empty file was left by a run that ended before the header got there.
+  if (trunc || !std::filesystem::exists(path_) ||
+      std::filesystem::file_size(path_) == 0) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
-- 
2.43.0


From 1b83f0d0c1f0027140fc946fdd798959152cd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 53/53] fix: the UB-PSI client rewrote its cache description in
 place (unusable after a crash in the online phase, failed writes unnoticed)

---
 psi/algorithm/ecdh/ub_psi/client.cc |  1 +
 psi/utils/ec_point_store.cc         | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index f4b4d92..305f5f8 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -81,6 +81,7 @@ void EcdhUbPsiClient::OfflineTransferCache() {
   ub_psi_client_transfer_cache->RecvFinalEvaluatedItems(peer_ec_point_store);
 
   size_t item_count = peer_ec_point_store->ItemCount();
+  peer_ec_point_store->Flush();
   peer_ec_point_store.reset();
   std::filesystem::rename(partial_path + ".meta",
                           GetServerCachePath() + ".meta");
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..47be2cc 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -371,13 +371,22 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 void UbPsiClientCacheFileStore::LoadMeta() {
   std::ifstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.read(reinterpret_cast<char*>(&meta_), sizeof(CacheMeta));
+  YACL_ENFORCE(meta_stream.gcount() == sizeof(CacheMeta),
+               "meta file {} is incomplete", meta_path_);
 }
 
 void UbPsiClientCacheFileStore::DumpMeta() {
   meta_ = CacheMeta{
       .item_cnt = item_cnt_, .peer_cnt = peer_cnt_, .cipher_len = cipher_len_};
-  std::ofstream meta_stream(meta_path_, std::ios::binary);
-  meta_stream.write(reinterpret_cast<const char*>(&meta_), sizeof(CacheMeta));
+  // The store stays readable if this is cut short.
+  const std::string tmp_path = meta_path_ + ".tmp";
+  {
+    std::ofstream meta_stream(tmp_path, std::ios::binary);
+    meta_stream.write(reinterpret_cast<const char*>(&meta_), sizeof(CacheMeta));
+    meta_stream.close();
+    YACL_ENFORCE(meta_stream.good(), "failed to write {}", tmp_path);
+  }
+  std::filesystem::rename(tmp_path, meta_path_);
 }
 
 UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
@@ -412,7 +421,13 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
   }
 }
 
-UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() { Flush(); }
+UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() {
+  try {
+    Flush();
+  } catch (const std::exception& e) {
+    SPDLOG_ERROR("failed to store {}: {}", path_, e.what());
+  }
+}
 
 std::shared_ptr<IBasicBatchProvider>
 UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
@@ -422,6 +437,7 @@ UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
 
 void UbPsiClientCacheFileStore::Flush() {
   output_stream_.flush();
+  YACL_ENFORCE(output_stream_.good(), "failed to write {}", path_);
   DumpMeta();
 }
 
-- 
2.43.0

