From 93bf8d9e410fcf1c6e0300f452d3d05bfd6c5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 01/48] fix: verify wp against every storage a short
 transaction read

Range reads, reads of missing keys and the existence checks of insert, update
and delete have no read set element, so the storages behind them were not part
of the write preserve (wp) verification at commit.  The verification also ran
after the read verification, which let a long transaction expose its writes
and drop its wp between the two.
---
 src/concurrency_control/include/session.h     |  9 ++-
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/search.cpp             |  2 +-
 .../interface/short_tx/termination.cpp        | 72 ++++++++++++++-----
 4 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..72e907b 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -6,6 +6,7 @@
 
 #include <array>
 #include <atomic>
+#include <map>
 #include <mutex>
 #include <set>
 
@@ -37,7 +38,8 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    using range_read_by_short_set_type =
+            std::map<range_read_by_short*, Storage>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +443,12 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(range_read_by_short* rrbs,
+                                         Storage const st) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(rrbs, st);
     }
 
     void clear_read_set_for_stx() {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..84ddfc3 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -273,7 +273,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..58f0d92 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -63,7 +63,7 @@ Status search_key(session* ti, Storage const storage,
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..f3efd2e 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -222,6 +222,7 @@ static Status wp_verify(Storage const st, epoch::epoch_t const commit_epoch) {
                    << "unreachable path. It strongly suspect that DML and DDL "
                       "are mixed."
                    << " rc:" << rc;
+        return Status::OK;
     }
     auto wps{wm->get_wped()};
     auto find_min_ep{wp::wp_meta::find_min_ep(wps)};
@@ -235,6 +236,56 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
                              tid_word& commit_tid) {
     tid_word check{};
     std::vector<Storage> accessed_st{};
+    // log accessed storage
+    for (auto&& itr : ti->get_read_set_for_stx()) {
+        accessed_st.emplace_back(itr.get_storage());
+    }
+
+    // range read and read of non-existence don't always have read set element
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.second);
+        }
+    }
+
+    // insert, update and delete observe whether the key exists, so they are
+    // subject to wp verify too. only upsert is a blind write.
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        auto process = [&accessed_st](write_set_obj& wso) {
+            if (wso.get_op() != OP_TYPE::UPSERT) {
+                accessed_st.emplace_back(wso.get_storage());
+            }
+        };
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                process(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                process(itr);
+            }
+        }
+    }
+
+    // wp verify
+    // this must be before read verify. ltx exposes its writes and then removes
+    // wp, so the writes of ltx whose wp wasn't found are found by read verify.
+    // reduce redundat
+    std::sort(accessed_st.begin(), accessed_st.end());
+    accessed_st.erase(std::unique(accessed_st.begin(), accessed_st.end()),
+                      accessed_st.end());
+    for (auto&& each_st : accessed_st) {
+        if (wp_verify(each_st, ce) != Status::OK) {
+            unlock_write_set(ti);
+            short_tx::abort(ti);
+            ti->set_result(reason_code::CC_OCC_WP_VERIFY);
+            return Status::ERR_CC;
+        }
+    }
+
     // read verify
     for (auto&& itr : ti->get_read_set_for_stx()) {
         auto* rec_ptr = itr.get_rec_ptr();
@@ -259,27 +310,10 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
         // ==============================
 
-        // log accessed storage
-        accessed_st.emplace_back(itr.get_storage());
-
         // compute timestamp
         commit_tid = std::max(check, commit_tid);
     }
 
-    // wp verify
-    // reduce redundat
-    std::sort(accessed_st.begin(), accessed_st.end());
-    accessed_st.erase(std::unique(accessed_st.begin(), accessed_st.end()),
-                      accessed_st.end());
-    for (auto&& each_st : accessed_st) {
-        if (wp_verify(each_st, ce) != Status::OK) {
-            unlock_write_set(ti);
-            short_tx::abort(ti);
-            ti->set_result(reason_code::CC_OCC_WP_VERIFY);
-            return Status::ERR_CC;
-        }
-    }
-
     return Status::OK;
 }
 
@@ -699,7 +733,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.first->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From 536b251007e48d5209e8a2a9204e3295f7b5c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:18 +0000
Subject: [PATCH 02/48] fix: include written-to records in the point reads of a
 short transaction

Insert, update and delete observe whether the key exists.  A long transaction
that is ordered before them has to see that observation.
---
 .../interface/short_tx/termination.cpp        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index f3efd2e..4dd1d4e 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -720,6 +720,25 @@ static void register_point_read_by_short(session* const ti) {
         recs.insert(itr.get_rec_ptr());
     }
 
+    // insert, update and delete read whether the key exists
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        auto process = [&recs](write_set_obj& wso) {
+            if (wso.get_op() != OP_TYPE::UPSERT) {
+                recs.insert(wso.get_rec_ptr());
+            }
+        };
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                process(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                process(itr);
+            }
+        }
+    }
+
     for (auto&& itr : recs) {
         auto& ro{itr->get_read_by()};
         ro.push(ce);
-- 
2.43.0


From bd1697f1b058c6f6e8c3f6cc5ac4b083d11936f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 03/48] fix: do not use the write set after abort in write_lock

---
 .../interface/short_tx/termination.cpp         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 4dd1d4e..4a5ef5f 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -421,14 +421,15 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     tid_word tid{rec_ptr->get_tidw_ref()};
                     if (tid.get_latest() && !tid.get_absent()) {
                         // the record is existing record (not inserting, deleted)
+                        // abort clears write set
+                        const auto st = wso_ptr->get_storage();
+                        const std::string key{rec_ptr->get_key_view()};
                         abort_process();
                         std::unique_lock<std::mutex> lk{
                                 ti->get_mtx_result_info()};
                         ti->get_result_info().set_reason_code(
                                 reason_code::KVS_INSERT);
-                        ti->get_result_info().set_key_storage_name(
-                                rec_ptr->get_key_view(),
-                                wso_ptr->get_storage());
+                        ti->get_result_info().set_key_storage_name(key, st);
                         return Status::ERR_KVS;
                     }
                 }
@@ -464,15 +465,18 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
             ++num_locked;
             if (rec_ptr->get_tidw_ref().get_absent()) {
+                // abort clears write set
+                const auto op = wso_ptr->get_op();
+                const auto st = wso_ptr->get_storage();
+                const std::string key{rec_ptr->get_key_view()};
                 abort_process();
-                if (wso_ptr->get_op() == OP_TYPE::UPDATE) {
+                if (op == OP_TYPE::UPDATE) {
                     ti->set_result(reason_code::KVS_UPDATE);
-                } else if (wso_ptr->get_op() == OP_TYPE::DELETE) {
+                } else if (op == OP_TYPE::DELETE) {
                     ti->set_result(reason_code::KVS_DELETE);
                 }
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-                ti->get_result_info().set_key_storage_name(
-                        rec_ptr->get_key_view(), wso_ptr->get_storage());
+                ti->get_result_info().set_key_storage_name(key, st);
                 return Status::ERR_KVS;
             }
         } else {
-- 
2.43.0


From 1102e5650fbbb2a6077b4b94282673d2dbf31b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 04/48] fix: order a short commit after the tombstone it
 overwrites

---
 src/concurrency_control/interface/short_tx/termination.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 4a5ef5f..795121a 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -433,10 +433,9 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update, including tombstone because
+                // it may be read by others
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From 6f5d95dd64af16b0fa2711f170738fabba2bb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 05/48] fix: compare the writer kind in the read verification

The tid of a long transaction is its id, so it can be equal to a tid chosen by a
short transaction of the same epoch.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 795121a..9bb6cba 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -186,6 +186,8 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             read_tid.get_tid() != check.get_tid() ||
             // different epoch
             read_tid.get_epoch() != check.get_epoch() ||
+            // written by different kind of tx. the tid of ltx is its id.
+            read_tid.get_by_short() != check.get_by_short() ||
             // locked and it's not own.
             (check.get_lock() &&
              ti->get_write_set().search(rec_ptr) == nullptr)) {
-- 
2.43.0


From 154df98b4f000c21743388883b33092254c3bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 06/48] fix: keep the timestamp of a tombstone when an insert
 is cancelled

---
 src/concurrency_control/interface/long_tx/termination.cpp  | 5 ++---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..6dc4982 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -60,11 +60,10 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                 check = loadAcquire(
                         rec_ptr->get_tidw_ref().get_obj()); // reload
                 if (check_cd()) {                           // main-check
-                    tid_word tid{};
-                    tid.set_absent(true);
+                    // keep timestamp of the tombstone
+                    tid_word tid{check};
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
                 } else {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 9bb6cba..a3f6dd4 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -133,12 +133,10 @@ static void change_inserting_records_state(session* const ti) {
                 // main-check
                 if (check_cd()) {
                     // inserting yet
-                    tid_word tid{};
-                    tid.set_absent(true);
+                    // keep timestamp of the tombstone
+                    tid_word tid{check};
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
-                    tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso_ptr->get_storage());
                 } else {
-- 
2.43.0


From 1e307b9bf9d3afecb28a96b2d56ab5cc8ab6bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 07/48] fix: register nodes of rows that a vector scan skips

A row which is skipped, or which is the own write of the transaction, did not
add its node to the node set.  Inserts into that node were missed.
---
 src/concurrency_control/include/local_set.h   | 16 ++++++++++++
 .../interface/scan/next.cpp                   | 10 ++++++-
 .../interface/scan/open_scan.cpp              |  7 +++++
 .../interface/scan/read_kv_from_scan.cpp      | 26 ++++++++++++++-----
 4 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index 4f166af..ee7aaab 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -396,6 +396,22 @@ public:
         return Status::OK;
     }
 
+    /**
+     * @brief register a node whose entries the cursor passed without reading.
+     * @details This doesn't validate the node. If the node was changed, it is
+     * detected by the node verify of the commit.
+     */
+    void emplace_back_skipped(std::pair<yakushima::node_version64_body,
+                                        yakushima::node_version64*>
+                                      elem) {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
+        for (auto&& elem_set : set_) {
+            // already registered, maybe it was updated by self insert
+            if (std::get<1>(elem_set) == std::get<1>(elem)) { return; }
+        }
+        get_set().emplace_back(elem);
+    }
+
     Status update_node_set(const yakushima::inserted_node_info& ii) {
         yakushima::node_version64_body modified_nvb{};
         Status check_node_set_res = update_node_set(ii.modified_nvp, modified_nvb);
diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..f0c4eff 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,15 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                // read_from_scan doesn't visit it, so register the node here
+                ti->get_node_set().emplace_back_skipped(
+                        {std::get<1>(*itr), std::get<2>(*itr)});
+            }
+            continue;
+        }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 84ddfc3..dcce03d 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -389,6 +389,13 @@ static Status open_scan_body(
         }
     }
 
+    // the nodes of skipped leading records are not visited by read_from_scan
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        for (std::size_t i = 0; i < head_skip_rec_n; ++i) {
+            ti->get_node_set().emplace_back_skipped(nvec.at(i + nvec_delta));
+        }
+    }
+
     // for hit, register left end point info as already read
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         long_tx::update_local_read_range(ti, wp_meta_ptr, l_key, l_end);
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..d69eb78 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -76,6 +76,21 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         st = sc->get_storage();
     }
 
+    // create node set info, maybe phantom (Status::ERR_CC)
+    auto check_phantom_if_stx = [ti, st, &node_check]() {
+        if (ti->get_tx_type() != transaction_options::transaction_type::SHORT) {
+            return Status::OK;
+        }
+        auto rc = node_check();
+        if (rc == Status::ERR_CC) {
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_storage_name(st);
+            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+            short_tx::abort(ti);
+        }
+        return rc;
+    };
+
     // log read range info if ltx
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         wp::wp_meta* wp_meta_ptr{};
@@ -95,6 +110,9 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         const write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr) {
+            if (check_phantom_if_stx() == Status::ERR_CC) {
+                return Status::ERR_CC;
+            }
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
                 return Status::WARN_NOT_FOUND;
@@ -128,13 +146,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         // optimization: set for re-read
         ti->push_to_read_set_for_stx({st, rec_ptr, tidb});
 
-        // create node set info, maybe phantom (Status::ERR_CC)
-        auto rc = node_check();
-        if (rc == Status::ERR_CC) {
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(st);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            short_tx::abort(ti);
+        if (check_phantom_if_stx() == Status::ERR_CC) {
             return Status::ERR_CC;
         } // else: return result about read (rr: read result)
         return rr;
-- 
2.43.0


From 159e8cfa6c7255eeaef6ef7d6b0f4cc12aaf364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 08/48] fix: check committed wp on a range read without living
 wp

---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..605ac86 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -242,14 +242,8 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    // even if there is no living wp, it needs to check committed wp
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From d74f3643b0598de5a91a1b027ce0768142149655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 09/48] fix: do not use the erased write set element in delete

---
 src/concurrency_control/interface/delete.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..04dd03f 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -83,7 +83,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From e1d7337ed712f860ed7d62b17ed551f917748970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 10/48] fix: keep the tombstone flag of an overwritten version

A long transaction that writes over a tombstone turned the old version into a
live row with an empty value.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 6dc4982..0298728 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -172,7 +172,6 @@ static inline void expose_local_write(
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
                     // prepare tid for old version
-                    pre_tid.set_absent(false);
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From d7f8149bc8250530f7dc30b70113d7df56c08748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 11/48] fix: keep the tombstone count until a long transaction
 wrote the record

---
 .../interface/long_tx/termination.cpp         | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 0298728..d11745f 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -111,19 +111,6 @@ static inline void expose_local_write(
         switch (wso.get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
-                // about tombstone count
-                if (wso.get_inc_tombstone()) {
-                    auto* rec_ptr = wso.get_rec_ptr();
-                    rec_ptr->get_tidw_ref().lock();
-                    if (rec_ptr->get_shared_tombstone_count() == 0) {
-                        LOG_FIRST_N(ERROR, 1)
-                                << log_location_prefix << "unreachable path.";
-                    } else {
-                        --rec_ptr->get_shared_tombstone_count();
-                    }
-                    rec_ptr->get_tidw_ref().unlock();
-                }
-
                 tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
                 auto check_cd = [&tid]() {
                     return tid.get_absent() && // inserting or deleted
@@ -260,6 +247,26 @@ static inline void expose_local_write(
                 break;
             }
         }
+        // about tombstone count. it blocks gc until the write was done.
+        if (wso.get_inc_tombstone()) {
+            rec_ptr->get_tidw_ref().lock();
+            if (rec_ptr->get_shared_tombstone_count() == 0) {
+                LOG_FIRST_N(ERROR, 1)
+                        << log_location_prefix << "unreachable path.";
+            } else {
+                --rec_ptr->get_shared_tombstone_count();
+            }
+            tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+            if (rec_ptr->get_shared_tombstone_count() == 0 &&
+                tid.get_latest() && tid.get_absent()) {
+                // the write was invisible and nobody is inserting
+                tid.set_latest(false);
+                tid.set_lock(false);
+                rec_ptr->set_tid(tid); // and unlock
+            } else {
+                rec_ptr->get_tidw_ref().unlock();
+            }
+        }
 #ifdef PWAL
         if (should_log) {
             // add log records to local wal buffer
-- 
2.43.0


From ea38119140a2c069b28d6c8c42c562cdf3b79b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 12/48] fix: find own writes before committed versions in
 open_scan

---
 src/concurrency_control/interface/scan/open_scan.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index dcce03d..30f9dac 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,14 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
+        // check read own write, it is readable regardless of committed versions
+        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+        if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+            return Status::OK;
+        }
+    }
+
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
-- 
2.43.0


From d7212bd6e43b5fb7e628c5ffefafe461c534030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 13/48] fix: register tombstones which a scan of a long
 transaction read

---
 .../interface/scan/next.cpp                   |  5 +++
 .../interface/scan/open_scan.cpp              | 42 ++++++++++++++-----
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index f0c4eff..47fa7ba 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -232,6 +232,11 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     // there is a readable rec
                     return Status::OK;
                 }
+            } else if (ti->get_tx_type() ==
+                       transaction_options::transaction_type::LONG) {
+                // it read the tombstone
+                ti->read_set_for_ltx().push(rec_ptr);
+                ti->set_read_version_max_epoch_if_need(tid.get_epoch());
             }
         }
     }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 30f9dac..e2df2eb 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -67,6 +67,18 @@ static Status fin_process(session* const ti, Status const this_result) {
     return this_result;
 }
 
+/**
+ * @brief register that ltx read the tombstone and skipped the record by that.
+ */
+static void register_read_tombstone_if_ltx(session* const ti,
+                                           Record* const rec_ptr,
+                                           tid_word const tid) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        ti->read_set_for_ltx().push(rec_ptr);
+        ti->set_read_version_max_epoch_if_need(tid.get_epoch());
+    }
+}
+
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         // check read own write, it is readable regardless of committed versions
@@ -93,7 +105,11 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                 ver = ver->get_next();
                 if (ver == nullptr) { break; }
                 if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                    if (ver->get_tid().get_absent()) { break; }
+                    if (ver->get_tid().get_absent()) {
+                        register_read_tombstone_if_ltx(ti, rec_ptr,
+                                                       ver->get_tid());
+                        break;
+                    }
                     return Status::OK;
                 }
             }
@@ -108,13 +124,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             return Status::OK;
         }
 
-        // check read own write
-        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
-        if (inws != nullptr) {
-            if (inws->get_op() == OP_TYPE::INSERT ||
-                inws->get_op() == OP_TYPE::UPSERT) {
-                return Status::OK;
-            }
+        // deleted page shared by someone's insert
+        if (tid.get_epoch() != 0 && tid.get_epoch() < ti->get_valid_epoch()) {
+            register_read_tombstone_if_ltx(ti, rec_ptr, tid);
+            return Status::INTERNAL_WARN_NOT_FOUND;
         }
 
         /**
@@ -125,7 +138,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             ver = ver->get_next();
             if (ver == nullptr) { break; }
             if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                if (ver->get_tid().get_absent()) { break; }
+                if (ver->get_tid().get_absent()) {
+                    register_read_tombstone_if_ltx(ti, rec_ptr, ver->get_tid());
+                    break;
+                }
                 return Status::OK;
             }
         }
@@ -147,10 +163,16 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     if (ver == nullptr) { break; }
                     if (ver->get_tid().get_epoch() <
                         ti->get_valid_epoch()) {
-                        if (ver->get_tid().get_absent()) { break; }
+                        if (ver->get_tid().get_absent()) {
+                            register_read_tombstone_if_ltx(ti, rec_ptr,
+                                                           ver->get_tid());
+                            break;
+                        }
                         return Status::OK;
                     }
                 }
+            } else {
+                register_read_tombstone_if_ltx(ti, rec_ptr, tid);
             }
         }
     }
-- 
2.43.0


From d762337a406c0fd612ea85c414ccde2c561a99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 14/48] fix: check every element in is_exist of read by long

---
 src/concurrency_control/read_by.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..5cb5f8b 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,7 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
-        }
+        } // else: elem is low priori than this. it is not sorted by priority.
     }
 
     return false;
@@ -89,7 +86,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (std::get<range_read_by_long::index_epoch>(elem) >= ep) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +110,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From b9846d4006032906c0e159780ee5b781eb5da10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 15/48] fix: block gc of a record which has an uncommitted
 upsert

---
 src/concurrency_control/interface/upsert.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..29d66d7 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -135,7 +135,16 @@ static Status upsert_body(
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
                 // prepare update
-                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
+                rec_ptr->get_tidw_ref().lock();
+                if (tid_word{rec_ptr->get_tidw_ref()}.get_absent()) {
+                    // deleted concurrently
+                    rec_ptr->get_tidw_ref().unlock();
+                    continue;
+                }
+                // block gc if others delete it before commit of this tx
+                ++rec_ptr->get_shared_tombstone_count();
+                rec_ptr->get_tidw_ref().unlock();
+                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; } // else
-- 
2.43.0


From 95d3e3c570b841236fa1792854f8002dd5c267e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 16/48] fix: keep versions for transactions that are being
 started

A transaction inside of tx_begin already has its epoch but is not marked as begun
yet, so the garbage collector did not keep the versions it is going to read.
---
 src/concurrency_control/garbage.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..57de9ea 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -7,6 +7,7 @@
 
 #include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
 
@@ -126,12 +127,21 @@ void work_manager() {
             VLOG(log_debug) << log_location_prefix << "min_begin_epoch back from " << old << " to " << min_begin_epoch << " (ignored)";
         }
         // computing about ltx
-        if (valid_epoch != 0) {
-            // exist some ltx
-            auto csse = epoch::get_cc_safe_ss_epoch();
-            set_min_batch_epoch(std::min(csse, valid_epoch));
-        } else {
-            set_min_batch_epoch(epoch::get_cc_safe_ss_epoch());
+        {
+            // block begin of ltx / rtx. tx which is beginning isn't began yet
+            // from the view of above loop but may already have valid epoch.
+            std::shared_lock<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+            auto min_batch_epoch = epoch::get_cc_safe_ss_epoch();
+            if (valid_epoch != 0) {
+                // exist some ltx
+                min_batch_epoch = std::min(min_batch_epoch, valid_epoch);
+            }
+            for (auto&& elem : ongoing_tx::get_tx_info()) {
+                min_batch_epoch = std::min(
+                        min_batch_epoch,
+                        std::get<ongoing_tx::index_epoch>(elem));
+            }
+            set_min_batch_epoch(min_batch_epoch);
         }
 #ifdef PWAL
         switch_available_boundary_version(shirakami::datastore::get_datastore(), std::min(get_min_begin_epoch(), get_min_batch_epoch()));
-- 
2.43.0


From 1c3a12b60cc8662cd6d1aea5cceb1523305f227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:20 +0000
Subject: [PATCH 17/48] fix: retry a failed optimistic read in a scan

The retry looked only at older versions although the latest version may still be
the right one.
---
 .../interface/scan/read_kv_from_scan.cpp            | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index d69eb78..f7b008a 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -153,6 +153,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
         ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
+    RETRY:
         version* ver{};
         bool is_latest{false};
         tid_word f_check{};
@@ -199,16 +200,10 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
             /**
              * else: fail to do optimistic read latest version. retry version
              * function.
-             * It may find null version.
+             * The latest version may be the version which this tx should read
+             * yet, e.g. only inserting state was changed.
              */
-            ver = rec_ptr->get_latest();
-            rc = long_tx::version_function_without_optimistic_check(
-                    ti->get_valid_epoch(), ver);
-            if (rc == Status::WARN_NOT_FOUND) {
-                // version list traversed.
-                read_register_if_ltx(rec_ptr);
-                return rc;
-            }
+            goto RETRY; // NOLINT
         }
 
         if (!ver->get_tid().get_absent()) {
-- 
2.43.0


From 3ec4858ebb5b1f523ac6ec7832063e5522ac136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:20 +0000
Subject: [PATCH 18/48] fix: add the scan range to the read plan of a long
 transaction

---
 src/concurrency_control/include/session.h     | 22 +++++++++++++++++++
 .../interface/scan/open_scan.cpp              |  1 +
 2 files changed, 23 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 72e907b..a9056b8 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -518,6 +518,28 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        // widen to include both end points
+        if (l_end != scan_endpoint::INF) {
+            insert_to_ltx_storage_read_set(st, std::string(l_key));
+        }
+        if (r_end != scan_endpoint::INF) {
+            insert_to_ltx_storage_read_set(st, std::string(r_key));
+        }
+        if (l_end != scan_endpoint::INF && r_end != scan_endpoint::INF) {
+            return;
+        }
+        insert_to_ltx_storage_read_set(st);
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto& elem = get_ltx_storage_read_set()[st];
+        if (l_end == scan_endpoint::INF) { std::get<1>(elem) = l_end; }
+        if (r_end == scan_endpoint::INF) { std::get<3>(elem) = r_end; }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index e2df2eb..6c69a91 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -294,6 +294,7 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From cbc836ae3c0155094cc10774c34b01f4fa55ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:02 +0000
Subject: [PATCH 19/48] fix: end the inserting state of a record whose insert
 aborts the transaction

---
 src/concurrency_control/interface/insert.cpp | 3 +++
 src/concurrency_control/interface/upsert.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..ae9dd51 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -54,7 +54,10 @@ static inline Status insert_process(session* const ti, Storage st,
                  * This This transaction is confirmed to be aborted
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
+                 * The record is already in the index, so the abort has to
+                 * find it in the write set to end its inserting state.
                  */
+                ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_insert(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 29d66d7..7e69055 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -55,7 +55,10 @@ static inline Status insert_process(session* const ti, Storage st,
                  * This This transaction is confirmed to be aborted
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
+                 * The record is already in the index, so the abort has to
+                 * find it in the write set to end its inserting state.
                  */
+                ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_update(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
-- 
2.43.0


From 3697411058ef618c760cbb77e1a8c5a86eb45a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:02 +0000
Subject: [PATCH 20/48] fix: ignore read only transactions in the priority
 query of long transactions

---
 src/concurrency_control/transaction_state.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..0b71846 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -168,10 +168,16 @@ static Status check_ltx_is_highest_priority_body(Token token, bool& out) {
     {
         // take shared lock for ongoing tx info
         std::lock_guard<std::shared_mutex> lk{ongoing_tx::get_mtx()};
-        // check highest tx id
-        std::size_t highest_tx_id{std::get<ongoing_tx::index_id>(
-                (*ongoing_tx::get_tx_info().begin()))};
-        out = highest_tx_id == ti->get_long_tx_id();
+        // check highest tx id. read only tx has no priority over ltx.
+        out = false;
+        for (auto&& elem : ongoing_tx::get_tx_info()) {
+            if (std::get<ongoing_tx::index_session>(elem)->get_tx_type() ==
+                transaction_options::transaction_type::LONG) {
+                out = std::get<ongoing_tx::index_id>(elem) ==
+                      ti->get_long_tx_id();
+                break;
+            }
+        }
     }
 
     return Status::OK;
-- 
2.43.0


From a37b9c622e02c49f102d5f5d592d92ac865a9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:56 +0000
Subject: [PATCH 21/48] fix: decide write only by the same reads at commit wait
 and verification

---
 src/concurrency_control/include/session.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index a9056b8..a457dac 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -229,7 +229,9 @@ public:
                 get_range_read_set_for_ltx().get_mtx_set()};
         return get_tx_type() == transaction_options::transaction_type::LONG &&
                read_set_for_ltx().set().empty() &&
-               get_range_read_set_for_ltx().get_set().empty();
+               get_range_read_set_for_ltx().get_set().empty() &&
+               // verify at commit treats it as not write only
+               get_ltx_storage_read_set().empty();
     }
 
     // ========== start: getter
-- 
2.43.0


From 88d7600036e936b7e6b56b701f51de7b7f6598b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:15 +0000
Subject: [PATCH 22/48] fix: clear the commit callback before calling it

---
 src/concurrency_control/include/session.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index a457dac..7248145 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -108,11 +108,12 @@ public:
         // get callback
         auto cb = get_commit_callback();
 
+        // clear callback before the call. after the call, the session may
+        // already be used for the next transaction.
+        set_commit_callback({});
+
         // call callback if it can
         if (cb) { cb(sc, rc, dm); }
-
-        // clear callback
-        set_commit_callback({});
     }
 
     /**
-- 
2.43.0


From 36065a5ce1ccf0441630ee0afe549e0709a13491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:16 +0000
Subject: [PATCH 23/48] fix: keep the state of a transaction that ended before
 its epoch

Querying the state of a long or read only transaction whose epoch had not
come yet reset it to waiting start, even if the transaction had been aborted.
A query could also report or store a state older than the current one.
---
 include/shirakami/transaction_state.h         | 12 ++++++++++
 src/concurrency_control/transaction_state.cpp | 24 +++++++++----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/shirakami/transaction_state.h b/include/shirakami/transaction_state.h
index d481604..dbfdaa8 100644
--- a/include/shirakami/transaction_state.h
+++ b/include/shirakami/transaction_state.h
@@ -194,6 +194,18 @@ public:
 
     void set_kind(StateKind kd) { kind_ = kd; }
 
+    /**
+     * @brief change the kind only if it is still @a from.
+     * @return the kind after this call.
+     */
+    StateKind promote_kind(StateKind from, StateKind to) {
+        if (__atomic_compare_exchange_n(&kind_, &from, to, false,
+                                        __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            return to;
+        }
+        return from;
+    }
+
     void set_durable_epoch(epoch_t epoch) { durable_epoch_ = epoch; }
 
     void set_serial_epoch(epoch_t epoch) { serial_epoch_ = epoch; }
diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index 0b71846..1a83da0 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -93,9 +93,12 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
     if (rc == Status::WARN_INVALID_HANDLE) { return rc; }
     // handle is valid
     auto& ts{TxState::get_tx_state(handle)};
+    // the tx may have proceeded after the copy
+    auto kind = ts.state_kind();
+    out.set_kind(kind);
     // short tx
     if (out.get_serial_epoch() == 0) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        if (kind == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
             if (ts.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
@@ -114,17 +117,18 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
 
     // long tx
     if (out.get_serial_epoch() <= epoch::get_global_epoch()) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_START) {
+        if (kind == TxState::StateKind::WAITING_START) {
             // check high priori stx
             auto* ti = static_cast<session*>(ts.get_token());
             if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
-                ts.set_kind(TxState::StateKind::STARTED);  // for internal
-                out.set_kind(TxState::StateKind::STARTED); // for external
-            }                                              // else : premature
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_CC_COMMIT) {
+                // for internal, unless the tx ended meanwhile
+                out.set_kind(ts.promote_kind(TxState::StateKind::WAITING_START,
+                                             TxState::StateKind::STARTED));
+            } // else : premature
+        } else if (kind == TxState::StateKind::WAITING_CC_COMMIT) {
             // waiting for commit by background worker.
             out.set_kind(TxState::StateKind::WAITING_CC_COMMIT); // for external
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        } else if (kind == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
             if (ts.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
@@ -138,11 +142,7 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
-    }
-
+    } // else : waiting start, or it ended before its epoch
 
     return Status::OK;
 }
-- 
2.43.0


From f97604f670b777529ccf4876d0ba978594a7ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:16 +0000
Subject: [PATCH 24/48] fix: report no key information without a reason

Resetting the reason marked an empty key as valid information.
---
 include/shirakami/result_info.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/shirakami/result_info.h b/include/shirakami/result_info.h
index 5a4d6fa..a420509 100644
--- a/include/shirakami/result_info.h
+++ b/include/shirakami/result_info.h
@@ -146,7 +146,10 @@ public:
     }
 
     void set_reason_code(reason_code rc) {
-        if (rc == reason_code::UNKNOWN) { set_key(""); }
+        if (rc == reason_code::UNKNOWN) {
+            set_has_key_info(false);
+            key_.clear();
+        }
         reason_code_ = rc;
     }
 
-- 
2.43.0


From 925412d7773fb3e38eeddd43f9b5b7d5034d7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:16 +0000
Subject: [PATCH 25/48] fix: refuse abort and commit before touching a pending
 commit

A second commit request replaced the notification of the first one, which was
never delivered then. A refused abort changed the recorded result.
---
 .../interface/termination.cpp                 | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..8a9f7cb 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -17,6 +17,15 @@ static Status abort_body(Token token) { // NOLINT
     // check whether it already began.
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_ILLEGAL_OPERATION;
+    }
+
     // set result info
     ti->set_result(reason_code::USER_ABORT);
 
@@ -25,13 +34,6 @@ static Status abort_body(Token token) { // NOLINT
         rc = short_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_ILLEGAL_OPERATION;
-        }
         rc = long_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::READ_ONLY) {
@@ -69,6 +71,20 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         * The callback of the first request must be kept.
+         */
+        if (callback) {
+            callback(Status::WARN_ILLEGAL_OPERATION, {}, 0);
+            return Status::WARN_ILLEGAL_OPERATION;
+        }
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
@@ -86,13 +102,6 @@ static Status commit_body(Token const token,                    // NOLINT
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
         // for long tx
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_WAITING_FOR_OTHER_TX;
-        }
         rc = long_tx::commit(ti);
 
         // set about diagnostics
-- 
2.43.0


From b406f4de219bd48357646ccaec83cc1e182a9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:07 +0000
Subject: [PATCH 26/48] fix: report a missing storage to read-only transactions

A point read of a read-only transaction on a storage that does not exist
dereferenced a null record.
---
 src/concurrency_control/interface/read_only_tx/search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..6cf2ddd 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,9 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
-    }
+    auto rc{get<Record>(storage, key, rec_ptr)};
+    if (rc != Status::OK) { return rc; }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
 }
-- 
2.43.0


From 9188eea202ea69189446b10513e6df13b2582183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:07 +0000
Subject: [PATCH 27/48] fix: refuse to delete the internal storages

Passing the handle of the catalog or sequence storage to delete_storage()
destroyed it.
---
 src/concurrency_control/interface/storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..a36ab26 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -136,6 +136,11 @@ Status create_storage(std::string_view key, Storage& storage,
 
 static Status delete_storage_body(Storage const storage) {
     std::lock_guard<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
+    // storages for internal use are not handed out to users
+    if (storage == storage::meta_storage ||
+        storage == storage::sequence_storage) {
+        return Status::WARN_INVALID_HANDLE;
+    }
     auto ret = storage::delete_storage(storage);
     if (ret != Status::OK) { return ret; }
     // delete_storage was succeeded
-- 
2.43.0


From 56a1f80782790d692ff7e50d6df31f360397e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:33 +0000
Subject: [PATCH 28/48] fix: order sequence versions committed by older long
 transactions

When a long transaction of an older epoch committed a newer version of a
sequence, a lower version was read afterwards and after recovery.
---
 src/concurrency_control/sequence.cpp |  9 +++++++++
 src/concurrency_control/session.cpp  | 13 +++++++++----
 src/include/sequence.h               |  5 +++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..6b049ae 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -219,6 +219,15 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     return Status::WARN_ILLEGAL_OPERATION;
 }
 
+epoch::epoch_t sequence::sequence_map_latest_epoch(SequenceId const id) {
+    auto found_id_itr = sequence::sequence_map().find(id);
+    if (found_id_itr == sequence::sequence_map().end() ||
+        found_id_itr->second.empty()) {
+        return 0;
+    }
+    return found_id_itr->second.rbegin()->first;
+}
+
 Status sequence::sequence_map_update(SequenceId const id,
                                      epoch::epoch_t const epoch,
                                      SequenceVersion const version,
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..3caca20 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -1,4 +1,6 @@
 
+#include <algorithm>
+
 #include "sequence.h"
 #include "storage.h"
 
@@ -57,8 +59,12 @@ void session::commit_sequence(tid_word ctid) {
         SequenceId id = itr->first;
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
+        // The order of the sequence is decided by its version. A long
+        // transaction can belong to an older epoch than the latest version.
+        auto seq_epoch = std::max(static_cast<epoch::epoch_t>(ctid.get_epoch()),
+                                  sequence::sequence_map_latest_epoch(id));
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
+        auto ret = sequence::sequence_map_find_and_verify(seq_epoch, id,
                                                           version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
@@ -87,13 +93,12 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(seq_epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
-        ret = sequence::sequence_map_update(id, epoch, version, value);
+        ret = sequence::sequence_map_update(id, seq_epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return;
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..fceeaed 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -59,6 +59,11 @@ public:
                                                SequenceId id,
                                                SequenceVersion version);
 
+    /**
+     * @brief the epoch of the latest version, or 0 if there is none.
+     */
+    static epoch::epoch_t sequence_map_latest_epoch(SequenceId id);
+
     static Status sequence_map_push(SequenceId id);
 
     static Status sequence_map_push(SequenceId id, SequenceVersion version,
-- 
2.43.0


From f14af013fabb570d82b8aee5c405f4c23ec7c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:25 +0000
Subject: [PATCH 29/48] fix: let parallel index restore register the same
 storage concurrently

---
 src/datastore/limestone/datastore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..ec462cc 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -140,11 +140,12 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                 // not exist, so create.
                 auto ret = shirakami::storage::register_storage(st2,
                                                                 {id, payload});
-                if (ret != Status::OK) {
+                if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
                     /**
                      * This process was done because
                      * shirakami::storage::exist_storage(st2) said not exist,
-                     * but it can't register_storage.
+                     * but it can't register_storage. If it already exists,
+                     * other recovery thread registered it for a normal entry.
                      */
                     LOG(FATAL) << log_location_prefix << "library programming error.";
                 }
-- 
2.43.0


From a3540d6d5fa44e7a1f2da964c58f1d385a44c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:25 +0000
Subject: [PATCH 30/48] fix: protect the sequence map while restoring it in
 parallel

---
 src/datastore/limestone/datastore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index ec462cc..8db4c0c 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -171,6 +171,9 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            // other recovery threads may push concurrently
+            std::lock_guard<std::shared_mutex> lk{
+                    sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From 9eee3e50df153d9438b0d417e7a4971cc1a172fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:09 +0000
Subject: [PATCH 31/48] fix: keep log sessions in the order transactions depend
 on each other

A log session stays open while its records are buffered. A transaction
committed in a later epoch was added to the older session, or took its
durability marker from it without writing anything, although it had read
records of transactions in newer sessions. A session also began only after
the first record was visible to others.
---
 src/concurrency_control/epoch.cpp             |  1 +
 src/concurrency_control/include/epoch.h       | 14 +++++++++++
 src/concurrency_control/include/local_set.h   |  8 +++++++
 src/concurrency_control/include/lpwal.h       | 24 ++++++++++++++++++-
 src/concurrency_control/include/session.h     |  5 ++++
 .../interface/long_tx/termination.cpp         | 12 +++++++++-
 .../interface/short_tx/termination.cpp        | 12 +++++++++-
 .../interface/start_up.cpp                    |  1 +
 src/concurrency_control/session.cpp           | 13 ++++++++++
 src/datastore/limestone/lpwal.cpp             | 13 ++++++++++
 10 files changed, 100 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/epoch.cpp b/src/concurrency_control/epoch.cpp
index 781fe69..8e0b0e8 100644
--- a/src/concurrency_control/epoch.cpp
+++ b/src/concurrency_control/epoch.cpp
@@ -163,6 +163,7 @@ void epoch_thread_work() {
 #ifdef PWAL
             // change also datastore's epoch
             switch_epoch(shirakami::datastore::get_datastore(), new_epoch);
+            set_datastore_epoch(new_epoch);
 #endif
             // compute for debug tools
             if (ptp > 0) {
diff --git a/src/concurrency_control/include/epoch.h b/src/concurrency_control/include/epoch.h
index f80c16c..33f6528 100644
--- a/src/concurrency_control/include/epoch.h
+++ b/src/concurrency_control/include/epoch.h
@@ -47,6 +47,12 @@ inline std::atomic<epoch_t> min_epoch_occ_potentially_write{0};
 
 inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
 
+/**
+ * @brief the epoch the datastore has been switched to.
+ * @details this is equal to or smaller than the global epoch.
+ */
+inline std::atomic<epoch_t> datastore_epoch{0}; // NOLINT
+
 [[maybe_unused]] inline std::thread epoch_thread; // NOLINT
 
 [[maybe_unused]] inline std::atomic<bool> epoch_thread_end; // NOLINT
@@ -57,6 +63,10 @@ inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
     return datastore_durable_epoch.load(std::memory_order_acquire);
 }
 
+[[maybe_unused]] static epoch_t get_datastore_epoch() { // NOLINT
+    return datastore_epoch.load(std::memory_order_acquire);
+}
+
 [[maybe_unused]] static bool get_epoch_thread_end() { // NOLINT
     return epoch_thread_end.load(std::memory_order_acquire);
 }
@@ -93,6 +103,10 @@ inline std::atomic<epoch_t> datastore_durable_epoch{0}; // NOLINT
     global_epoch_time_us.store(num, std::memory_order_release);
 }
 
+[[maybe_unused]] static void set_datastore_epoch(const epoch_t epo) { // NOLINT
+    datastore_epoch.store(epo, std::memory_order_release);
+}
+
 [[maybe_unused]] static void set_datastore_durable_epoch(epoch_t ep) {
     datastore_durable_epoch.store(ep, std::memory_order_release);
     call_durability_callbacks(ep);
diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index ee7aaab..847db96 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -188,6 +188,14 @@ public:
      */
     using storage_map = std::map<Storage, std::tuple<std::string, std::string>>;
 
+    /**
+     * @brief whether there is no write.
+     * @pre take mtx
+     */
+    [[nodiscard]] bool is_empty() const {
+        return cont_for_occ_.empty() && cont_for_bt_.empty();
+    }
+
     /**
      * @brief clear containers.
      */
diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 067eae5..36f80d3 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -188,7 +188,7 @@ public:
     void push_log(log_record const& log) {
         if (logs_.empty()) {
             set_min_log_epoch(log.get_wv().get_major_write_version());
-            begin_session();
+            if (!begun_session_) { begin_session(); }
         }
         logs_.emplace_back(log);
     }
@@ -222,6 +222,22 @@ public:
      */
     void end_session();
 
+    /**
+     * @brief prepare the session for the transaction which is about to expose
+     * its writes.
+     * @details The session must not be older than the sessions of the
+     * transactions this transaction depends on, and must begin before any
+     * other transaction can depend on this transaction.
+     * @pre take mtx of logs
+     */
+    void prepare_session();
+
+    /**
+     * @brief end the prepared session if no log was pushed to it.
+     * @pre take mtx of logs
+     */
+    void end_unused_session();
+
 private:
     /**
      * @brief worker thread number used for logging callback.
@@ -244,9 +260,15 @@ private:
     logs_type logs_{};
 
     // invariant: logs_.empty() == !begun_session_
+    // (except between prepare_session and end_unused_session)
     bool begun_session_{false};
     epoch::epoch_t durable_epoch_{};
 
+    /**
+     * @brief lower bound of the epoch which the begun session belongs to.
+     */
+    epoch::epoch_t session_epoch_{};
+
     /**
      * @brief log channel
      */
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 7248145..9e4d54c 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -169,6 +169,11 @@ public:
      */
     void clear_tx_property();
 
+    /**
+     * @brief whether the transaction has writes or sequence updates.
+     */
+    bool has_write();
+
     /**
      * @brief commit process for sequence.
      */
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index d11745f..23e3eaf 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -313,6 +313,10 @@ static inline void expose_local_write(
         std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+#ifdef PWAL
+        bool has_write = !ti->get_write_set().is_empty();
+        if (has_write) { ti->get_lpwal_handle().prepare_session(); }
+#endif
         for (auto&& wso : ti->get_write_set().get_ref_cont_for_bt()) {
             std::string_view pkey_view =
                     wso.second.get_rec_ptr()->get_key_view();
@@ -335,6 +339,9 @@ static inline void expose_local_write(
             }
             process(wso, ctid);
         }
+#ifdef PWAL
+        if (has_write) { ti->get_lpwal_handle().end_unused_session(); }
+#endif
     }
     garbage::set_dirty(dirty);
 }
@@ -829,7 +836,10 @@ extern Status commit(session* const ti) {
         {
             auto& handle = ti->get_lpwal_handle();
             std::unique_lock lk{handle.get_mtx_logs()};
-            if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+            // the session can hold only logs of other transactions
+            if (ti->has_write() && handle.get_begun_session()) {
+                this_dm = handle.get_durable_epoch();
+            }
         }
 #endif
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index a3f6dd4..27ac97e 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -668,6 +668,10 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
         std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
 #endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+#ifdef PWAL
+        bool has_write = !ti->get_write_set().is_empty();
+        if (has_write) { ti->get_lpwal_handle().prepare_session(); }
+#endif
         if (ti->get_write_set().get_for_batch()) {
             for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
                 auto rc = process(&itr.second);
@@ -687,6 +691,9 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
                 return Status::ERR_FATAL;
             }
         }
+#ifdef PWAL
+        if (has_write) { ti->get_lpwal_handle().end_unused_session(); }
+#endif
     }
     garbage::set_dirty(dirty);
 
@@ -839,7 +846,10 @@ extern Status commit(session* const ti) {
     {
         auto& handle = ti->get_lpwal_handle();
         std::unique_lock lk{handle.get_mtx_logs()};
-        if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+        // the session can hold only logs of other transactions
+        if (ti->has_write() && handle.get_begun_session()) {
+            this_dm = handle.get_durable_epoch();
+        }
     }
 #endif
 
diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index 25e093a..f166256 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -195,6 +195,7 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
     epoch::set_min_epoch_occ_potentially_write(0);
     // change also datastore's epoch, this must be after ready()
     switch_epoch(shirakami::datastore::get_datastore(), new_epoch);
+    epoch::set_datastore_epoch(new_epoch);
 #else
     epoch::set_global_epoch(epoch::initial_epoch);
     epoch::set_cc_safe_ss_epoch(epoch::initial_cc_safe_ss_epoch);
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index 3caca20..1011f98 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -107,13 +107,26 @@ void session::commit_sequence(tid_word ctid) {
     }
 
 #ifdef PWAL
+    // exposing the other writes prepared the session
+    bool had_write{false};
+    {
+        std::shared_lock<std::shared_mutex> lk{get_write_set().get_mtx()};
+        had_write = !get_write_set().is_empty();
+    }
     // push log to pwal buffer
     std::unique_lock<std::mutex> lk_for_pwal_buf{
             get_lpwal_handle().get_mtx_logs()};
+    if (!log_recs.empty() && !had_write) { get_lpwal_handle().prepare_session(); }
     for (auto& elem : log_recs) { get_lpwal_handle().push_log(elem); }
 #endif
 }
 
+bool session::has_write() {
+    if (!sequence_set().set().empty()) { return true; }
+    std::shared_lock<std::shared_mutex> lk{get_write_set().get_mtx()};
+    return !get_write_set().is_empty();
+}
+
 std::set<std::size_t> session::extract_wait_for() {
     // extract wait for
     std::set<std::size_t> wait_for;
diff --git a/src/datastore/limestone/lpwal.cpp b/src/datastore/limestone/lpwal.cpp
index 22d5a74..14b939c 100644
--- a/src/datastore/limestone/lpwal.cpp
+++ b/src/datastore/limestone/lpwal.cpp
@@ -119,6 +119,7 @@ void fin() {
 
 void handler::begin_session() {
     // assert begun_session_ = false
+    session_epoch_ = epoch::get_datastore_epoch();
     shirakami::begin_session(log_channel_ptr_);
     // TODO: global epoch is approximate value for durable epoch, but is guaranteed to be >= real durable epoch.
     // if the exact value becomes available, change this to use that.
@@ -134,6 +135,18 @@ void handler::end_session() {
     begun_session_ = false;
 }
 
+void handler::prepare_session() {
+    if (begun_session_ && session_epoch_ != epoch::get_global_epoch()) {
+        add_entry_from_logs(*this);
+        end_session();
+    }
+    if (!begun_session_) { begin_session(); }
+}
+
+void handler::end_unused_session() {
+    if (begun_session_ && logs_.empty()) { end_session(); }
+}
+
 // @pre take mtx of logs
 static void flush_log_and_end_session_if_exists(lpwal::handler& handle) {
     if (!handle.get_logs().empty()) {
-- 
2.43.0


From 50494cb59bece41d9e405058a8b4f128b1c567f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:09 +0000
Subject: [PATCH 32/48] fix: log long transaction writes hidden behind newer
 versions

The newer version may become durable later than the long transaction. Stopping
between the two lost a part of the long transaction.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 23e3eaf..048db43 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -106,6 +106,9 @@ static inline void expose_local_write(
         auto* rec_ptr = std::get<0>(wse);
         auto&& wso = std::get<1>(wse);
         dirty.insert(wso.get_storage());
+        // The version an invisible write hides behind may become durable later
+        // than this transaction, so that invisible writes are also logged. It
+        // is omitted only if the write version does not express the order.
         [[maybe_unused]] bool should_log{true};
         // bw can backward including occ bw
         switch (wso.get_op()) {
@@ -175,13 +178,12 @@ static inline void expose_local_write(
                          * 1: write only
                          * 2: no waiting bypass and no forwarding
                          */
-                        should_log = true;
                         std::string vb{};
                         wso.get_value(vb);
                         rec_ptr->get_latest()->set_value(vb);
                     } else {
                         // invisible write
-                        should_log = false;
+                        should_log = should_backward;
                         // keep tx id and by_short bit for successor invisible write
 
                         ctid.set_tid(pre_tid.get_tid());
@@ -204,7 +206,6 @@ static inline void expose_local_write(
                         version* new_v{new version(ctid, vb, ver)}; // NOLINT
                         pre_ver->set_next(new_v);
                     };
-                    should_log = false;
                     version* pre_ver{rec_ptr->get_latest()};
                     version* ver{rec_ptr->get_latest()->get_next()};
                     for (;;) {
@@ -232,6 +233,7 @@ static inline void expose_local_write(
                                 ver->set_tid(ctid);
                             }
                             // else: omit due to forwarding
+                            should_log = should_backward;
                             break;
                         }
                         pre_ver = ver;
-- 
2.43.0


From b02f01ad477c64d204f3841808e3ec5ba7082b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:19 +0000
Subject: [PATCH 33/48] fix: do not report an error for a storage that is being
 created or deleted

---
 src/concurrency_control/garbage.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index 57de9ea..25ea6d2 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -408,12 +408,8 @@ static inline void unhooking_keys_and_pruning_versions(stats_info_type& stats_in
             wp::page_set_meta* psm{};
             auto rc = wp::find_page_set_meta(st, psm);
             if (rc != Status::OK) {
-                if (storage::exist_storage(st) == Status::OK) {
-                    LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unexpected error, Storage " << st
-                                          << " exists, but cannot get page_set_meta of it";
-                } else {
-                    VLOG(log_debug) << log_location_prefix << "Storage " << st << " is not found";
-                }
+                // the storage is being created or deleted now
+                VLOG(log_debug) << log_location_prefix << "Storage " << st << " is not found";
                 continue;
             }
             storage_stats* ssp = psm->get_storage_stats_ptr();
-- 
2.43.0


From 387855d35f5539b7857ac85b4293245c79fa102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:19 +0000
Subject: [PATCH 34/48] fix: find and register overtaken transactions
 atomically with the snapshot epoch

---
 src/concurrency_control/include/wp.h                 | 1 +
 src/concurrency_control/interface/long_tx/helper.cpp | 6 ++++++
 src/concurrency_control/wp.cpp                       | 6 ------
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/wp.h b/src/concurrency_control/include/wp.h
index 15e9a55..a7925ab 100644
--- a/src/concurrency_control/include/wp.h
+++ b/src/concurrency_control/include/wp.h
@@ -81,6 +81,7 @@ inline Storage page_set_meta_storage{initial_page_set_meta_storage};
 
 /**
  * @brief extract ltxs info higher priority than @a ltx_id from @a wps.
+ * @pre the caller owns the mutex of the overtaken ltx set of @a ti.
  * @param[in] ti The transaction which executes on this session takes information.
  * @param[in] wp_meta_ptr wp information.
  * @param[in] wps wp information.
diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 605ac86..da6d890 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -236,11 +236,17 @@ Status version_function_with_optimistic_check(Record* rec, epoch::epoch_t ep,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
                               const std::string_view read_key) {
+    /**
+     * The snapshot epoch is computed under this mutex. It must not see the
+     * state that the living wp was found but it is not registered yet.
+     */
+    std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
     auto wps = wp_meta_ptr->get_wped();
     wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps, read_key);
 }
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
+    std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
     auto wps = wp_meta_ptr->get_wped();
     // even if there is no living wp, it needs to check committed wp
     wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
diff --git a/src/concurrency_control/wp.cpp b/src/concurrency_control/wp.cpp
index 37c8c05..70e99bb 100644
--- a/src/concurrency_control/wp.cpp
+++ b/src/concurrency_control/wp.cpp
@@ -27,9 +27,6 @@ void extract_higher_priori_ltx_info(session* const ti,
     // undefined hit process
     auto undefined_hit_process = [ti, wp_meta_ptr,
                                   key](std::size_t against_id) {
-        // get mutex for strand
-        std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
-
         /**
          * If this is the first forwarding against this table,
          * initialize read range.
@@ -97,9 +94,6 @@ void extract_higher_priori_ltx_info(session* const ti,
                                     wp_meta::wped_type const& wps) {
     // undefined hit process
     auto undefined_hit_process = [ti, wp_meta_ptr](std::size_t against_id) {
-        // get mutex
-        std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
-
         /**
          * If this is the first forwarding against this table,
          * initialize read range.
-- 
2.43.0


From fd7b5194b12b5cc39c74e9394d89fb8df297ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:53 +0000
Subject: [PATCH 35/48] fix: detect phantoms of an old cursor after a newer
 scan of the same node

---
 src/concurrency_control/include/local_set.h | 45 ++++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index 847db96..0ee8ec9 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -332,6 +332,7 @@ public:
 
     auto clear() {
         std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
+        registered_.clear();
         return get_set().clear();
     }
 
@@ -382,18 +383,16 @@ public:
         if (!comp_ver_for_node_verify(cnvp, std::get<0>(elem))) {
             // looks like phantom
             // check self phantom possibility
-            for (auto&& elem_set : set_) {
+            for (std::size_t i = 0; i < set_.size(); ++i) {
                 // compare pointer
-                if (std::get<1>(elem_set) == std::get<1>(elem)) {
+                if (std::get<1>(set_.at(i)) == std::get<1>(elem) &&
                     /**
                      * Node versions already added in a previous scan operation.
                      */
-                    if (comp_ver_for_node_verify(cnvp, std::get<0>(elem_set))) {
-                        // the difference due to old self insert.
-                        return Status::OK;
-                    }
-                    // the difference include other tx's insert
-                    return Status::ERR_CC;
+                    comp_ver_for_node_verify(cnvp, std::get<0>(set_.at(i))) &&
+                    is_before_self_insert(i, std::get<0>(elem))) {
+                    // the difference due to old self insert.
+                    return Status::OK;
                 }
             }
             // phantom due to other tx's insert
@@ -401,6 +400,7 @@ public:
         }
 
         get_set().emplace_back(elem);
+        registered_.emplace_back(std::get<0>(elem));
         return Status::OK;
     }
 
@@ -413,11 +413,15 @@ public:
                                         yakushima::node_version64*>
                                       elem) {
         std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
-        for (auto&& elem_set : set_) {
+        for (std::size_t i = 0; i < set_.size(); ++i) {
             // already registered, maybe it was updated by self insert
-            if (std::get<1>(elem_set) == std::get<1>(elem)) { return; }
+            if (std::get<1>(set_.at(i)) == std::get<1>(elem) &&
+                is_before_self_insert(i, std::get<0>(elem))) {
+                return;
+            }
         }
         get_set().emplace_back(elem);
+        registered_.emplace_back(std::get<0>(elem));
     }
 
     Status update_node_set(const yakushima::inserted_node_info& ii) {
@@ -477,11 +481,32 @@ public:
     }
 
 private:
+    /**
+     * @brief check whether the difference between @a nvb and the element is
+     * only self inserts.
+     * @param[in] i the position of the element of the same node.
+     * @param[in] nvb the node version.
+     * @pre the caller owns the mutex.
+     */
+    bool is_before_self_insert(std::size_t i,
+                               yakushima::node_version64_body nvb) {
+        // the element was changed by self insert only after registering
+        auto from = registered_.at(i).get_vinsert_delete();
+        auto to = std::get<0>(set_.at(i)).get_vinsert_delete();
+        return from <= nvb.get_vinsert_delete() &&
+               nvb.get_vinsert_delete() <= to;
+    }
+
     /**
      * @brief local set for phantom avoidance.
      */
     set_type set_;
 
+    /**
+     * @brief node versions of set_ when these were registered.
+     */
+    std::vector<yakushima::node_version64_body> registered_;
+
     /**
      * @brief mutex for local node set
      */
-- 
2.43.0


From 0002928af0f12e5adfc5e7865f08a91c0f61a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:56 +0000
Subject: [PATCH 36/48] fix: forget the write range of a long transaction when
 it ends

---
 src/concurrency_control/wp_meta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 682fb09..a6ead3d 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -144,11 +144,11 @@ wp_meta::register_wp_result_and_remove_wp(wp_result_elem_type const& elem) {
     }
     wp_lock_.lock();
     auto ret = remove_wp_without_lock(wp_result_elem_extract_id(elem));
-    if (ret == Status::OK) { return ret; }
-    wp_lock_.unlock();
+    if (ret != Status::OK) { wp_lock_.unlock(); }
 
-    // clear wp write range info
-    remove_write_range(std::get<1>(elem));
+    // clear wp write range info, it exists only if the tx wrote something
+    std::lock_guard<std::shared_mutex> lk{get_mtx_write_range()};
+    get_write_range().erase(wp_result_elem_extract_id(elem));
     return ret;
 }
 
-- 
2.43.0


From 7cc5964f4b1eab8d2cc62114e7ec748c9c1994fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:54 +0000
Subject: [PATCH 37/48] fix: discard an existing log when a database is created
 anew

---
 src/concurrency_control/interface/start_up.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index f166256..5f121e8 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -82,7 +82,7 @@ static Status create_datastore(const database_options& options) { // NOLINT
         // check exist
         std::error_code error;
         const bool result = std::filesystem::exists(options.get_log_directory_path(), error);
-        if (!result || error) {
+        if (result && !error) {
             // exists
             if (options.get_open_mode() == database_options::open_mode::CREATE) {
                 // there are some data not expected.
-- 
2.43.0


From be054810fcd2f27dbebed14999293600ea681080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:01 +0000
Subject: [PATCH 38/48] fix: forget transactions left open at the shutdown when
 starting again

A long or read only transaction that was open when the engine stopped stayed
in the list of ongoing transactions. After the next start the snapshot of
read only transactions did not advance any more.
---
 src/concurrency_control/include/ongoing_tx.h   | 5 +++++
 src/concurrency_control/interface/start_up.cpp | 2 ++
 src/concurrency_control/ongoing_tx.cpp         | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/src/concurrency_control/include/ongoing_tx.h b/src/concurrency_control/include/ongoing_tx.h
index 83af7f1..994bc01 100644
--- a/src/concurrency_control/include/ongoing_tx.h
+++ b/src/concurrency_control/include/ongoing_tx.h
@@ -62,6 +62,11 @@ public:
 
     static void remove_id(std::size_t id);
 
+    /**
+     * @brief forget all transactions. It is for start up.
+     */
+    static void clear();
+
     /**
      * @brief waiting bypass
      * @param[in] ti bypassing transaction info
diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index 5f121e8..ac50adb 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -206,6 +206,8 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
 
     // about cc
     session_table::init_session_table();
+    // forget long / read only transactions left open at the last shutdown
+    ongoing_tx::clear();
 
     // about index
     // pre condition : before wp::init() because wp::init() use yakushima function.
diff --git a/src/concurrency_control/ongoing_tx.cpp b/src/concurrency_control/ongoing_tx.cpp
index 6a639d8..7b382bf 100644
--- a/src/concurrency_control/ongoing_tx.cpp
+++ b/src/concurrency_control/ongoing_tx.cpp
@@ -248,6 +248,11 @@ void ongoing_tx::push_bringing_lock(tx_info_elem_type const ti) {
     tx_info_.emplace_back(ti);
 }
 
+void ongoing_tx::clear() {
+    std::lock_guard<std::shared_mutex> lk{mtx_};
+    tx_info_.clear();
+}
+
 void ongoing_tx::remove_id(std::size_t const id) {
     std::lock_guard<std::shared_mutex> lk{mtx_};
     epoch::epoch_t lep{0};
-- 
2.43.0


From ee8d0cb1079665392fc2dc0ce92ee15074434bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:10 +0000
Subject: [PATCH 39/48] fix: reset the oldest epoch of short transactions at
 start up without logging

Starting the engine a second time in a process without a log store kept the
value of the previous run, and the epoch thread reported a programming error.
---
 src/concurrency_control/interface/start_up.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/concurrency_control/interface/start_up.cpp b/src/concurrency_control/interface/start_up.cpp
index ac50adb..371210f 100644
--- a/src/concurrency_control/interface/start_up.cpp
+++ b/src/concurrency_control/interface/start_up.cpp
@@ -199,6 +199,7 @@ static Status init_body(const database_options& options, [[maybe_unused]] void*
 #else
     epoch::set_global_epoch(epoch::initial_epoch);
     epoch::set_cc_safe_ss_epoch(epoch::initial_cc_safe_ss_epoch);
+    epoch::set_min_epoch_occ_potentially_write(0);
 #endif
 
     // about tx state
-- 
2.43.0


From cde9d2c5706ac7eb2e497301a0e51510b800db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:38 +0000
Subject: [PATCH 40/48] fix: start a session without the result of its previous
 holder

---
 src/concurrency_control/interface/session_management.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/concurrency_control/interface/session_management.cpp b/src/concurrency_control/interface/session_management.cpp
index e63a7af..1960f6b 100644
--- a/src/concurrency_control/interface/session_management.cpp
+++ b/src/concurrency_control/interface/session_management.cpp
@@ -31,6 +31,8 @@ static Status enter_body(Token& token) { // NOLINT
         _mm_pause();
     }
     static_cast<session*>(token)->set_yakushima_token(kvs_token);
+    // forget the result of the previous holder's transaction
+    static_cast<session*>(token)->get_result_info().clear();
 
     return Status::OK;
 }
-- 
2.43.0


From 9a21e892d1075c31ada4297c222f941c214d1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:55:39 +0000
Subject: [PATCH 41/48] fix: keep a session until the background worker has
 done with its commit

A session could be left, and handed out again, between the end of a long
transaction whose commit had been waiting and the call of its callback. The
worker then answered the request of the next holder, or crashed.
---
 src/concurrency_control/interface/session_management.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/session_management.cpp b/src/concurrency_control/interface/session_management.cpp
index 1960f6b..5a9be57 100644
--- a/src/concurrency_control/interface/session_management.cpp
+++ b/src/concurrency_control/interface/session_management.cpp
@@ -71,12 +71,13 @@ static Status leave_body(Token const token) { // NOLINT
                                     << log_location_prefix
                                     << "library programming error";
                         }
-                        // the ltx commit was submitted, wait result.
-                        while (check_commit(&itr) == Status::WARN_WAITING_FOR_OTHER_TX) {
-                            _mm_pause();
-                        }
                     }
                 }
+                // if the ltx commit was submitted, wait result. The background
+                // worker may still use this session after the end of the tx.
+                while (check_commit(&itr) == Status::WARN_WAITING_FOR_OTHER_TX) {
+                    _mm_pause();
+                }
 
                 yakushima::leave(
                         static_cast<session*>(token)->get_yakushima_token());
-- 
2.43.0


From 83cb0812ff3b5631596a68c2e099975dd58b0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:14:14 +0000
Subject: [PATCH 42/48] fix: do not report the end of an older commit as the
 end of the next one

The worker noted the result of a waiting commit after it had called the
callback. If the session had submitted its next long transaction by then, that
one was taken as finished, and leaving the session dropped it.
---
 src/concurrency_control/bg_work/bg_commit.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/bg_work/bg_commit.cpp b/src/concurrency_control/bg_work/bg_commit.cpp
index fb6c86d..83b1c20 100644
--- a/src/concurrency_control/bg_work/bg_commit.cpp
+++ b/src/concurrency_control/bg_work/bg_commit.cpp
@@ -155,7 +155,16 @@ void bg_commit::worker() {
             }
             goto REFIND; // NOLINT
         }                // termination was successed
-        ti->set_result_requested_commit(rc);
+        {
+            // the session may already be used for the next long tx
+            std::lock_guard<std::shared_mutex> lk{ti->get_mtx_state_da_term()};
+            if (!(ti->get_tx_began() &&
+                  ti->get_tx_type() ==
+                          transaction_options::transaction_type::LONG &&
+                  ti->get_long_tx_id() != tx_id)) {
+                ti->set_result_requested_commit(rc);
+            }
+        }
 
         // erase the tx from cont
         {
-- 
2.43.0


From 6cb62da21cff38466f2993b2a384b18b8fe416a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:51 +0000
Subject: [PATCH 43/48] fix: look the scan handle up before closing its cursor

---
 src/concurrency_control/interface/scan/close_scan.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..4e8e451 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // the handle may be invalid, so it must not be used before it was found
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
-- 
2.43.0


From 008a657a053b8f1cec9fc8bb3e9ff92a4b740256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:43 +0000
Subject: [PATCH 44/48] fix: exclude other operations of the transaction while
 one writes

Writes of several threads on one transaction looked the key up in the write set
and added it in two steps, and upsert did not take part in the exclusion at all.
The set could get two entries for one record, and the commit then waited for its
own lock for ever; one key could be inserted twice; reads used freed entries.
---
 src/concurrency_control/interface/delete.cpp | 2 +-
 src/concurrency_control/interface/insert.cpp | 2 +-
 src/concurrency_control/interface/update.cpp | 2 +-
 src/concurrency_control/interface/upsert.cpp | 8 +++++++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 04dd03f..8bf4e98 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -172,7 +172,7 @@ Status delete_record(Token token, Storage storage, const std::string_view key) {
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // delete record body check warn not begin for strand
         ret = delete_record_body(token, storage, key);
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index ae9dd51..affdd7c 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -183,7 +183,7 @@ Status insert(Token const token, Storage const storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // insert_body check warn not begin
         ret = insert_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..8cec927 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -111,7 +111,7 @@ Status update(Token token, Storage storage,
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // update_body check termation by concurrent strand
         ret = update_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 7e69055..c639260 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -171,7 +171,13 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        // upsert_body check warn not begin
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 3a6207032673523677f2f4a0a10f4c67ef143a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:57:54 +0000
Subject: [PATCH 45/48] fix: look at the tombstone count under the record lock
 when a long transaction deletes

Another transaction could give up its share of the tombstone between the
check and the write, leaving the record in the inserting state for good.
---
 .../interface/long_tx/termination.cpp                 | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 048db43..904c1c8 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -139,6 +139,12 @@ static inline void expose_local_write(
                 [[fallthrough]]; // upsert is update
             }
             case OP_TYPE::DELETE: {
+                [[fallthrough]];
+            }
+            case OP_TYPE::UPDATE: {
+                // lock record
+                rec_ptr->get_tidw_ref().lock();
+                // the count is stable while the record is locked
                 if (wso.get_op() == OP_TYPE::DELETE) { // for fallthrough
                     if (rec_ptr->get_shared_tombstone_count() == 0) {
                         ctid.set_latest(false);
@@ -148,11 +154,6 @@ static inline void expose_local_write(
                         ctid.set_absent(true);
                     }
                 }
-                [[fallthrough]];
-            }
-            case OP_TYPE::UPDATE: {
-                // lock record
-                rec_ptr->get_tidw_ref().lock();
                 tid_word pre_tid{rec_ptr->get_tidw_ref().get_obj()};
 
                 if (ti->get_valid_epoch() > pre_tid.get_epoch()) {
-- 
2.43.0


From bc033dd7e5212a505023dd96ba2c089e236d53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:57:54 +0000
Subject: [PATCH 46/48] fix: keep a transaction state from being released while
 it is used

Releasing a state handle raced with queries of the same handle and with the
background worker that ends a pending commit.
---
 include/shirakami/transaction_state.h         | 22 +++++++++++++++----
 src/concurrency_control/include/session.h     |  3 +++
 .../interface/long_tx/termination.cpp         |  3 +++
 .../interface/read_only_tx/read_only_tx.cpp   |  3 +++
 .../interface/short_tx/termination.cpp        |  3 +++
 src/concurrency_control/transaction_state.cpp | 10 +++++++--
 6 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/shirakami/transaction_state.h b/include/shirakami/transaction_state.h
index dbfdaa8..5060564 100644
--- a/include/shirakami/transaction_state.h
+++ b/include/shirakami/transaction_state.h
@@ -112,9 +112,11 @@ public:
         set_serial_epoch(0);
     }
 
+    /**
+     * @pre the caller holds get_mtx_hc() exclusively.
+     */
     static Status find_and_erase_tx_state(TxStateHandle hd, Token& token) {
         {
-            std::lock_guard<std::shared_mutex> lk{mtx_hc_};
             auto itr = handle_container_.find(hd);
             if (itr != handle_container_.end()) {
                 token = itr->second.get_token();
@@ -130,8 +132,10 @@ public:
         return Status::OK;
     }
 
+    /**
+     * @pre the caller holds get_mtx_hc().
+     */
     static Status find_and_get_tx_state(TxStateHandle hd, TxState& out) {
-        std::shared_lock<std::shared_mutex> lk{mtx_hc_};
         if (handle_container_.find(hd) != handle_container_.end()) {
             out = (*handle_container_.find(hd)).second;
             return Status::OK;
@@ -150,8 +154,10 @@ public:
         reuse_ctr_container_.clear();
     }
 
+    /**
+     * @pre the caller holds get_mtx_hc() exclusively.
+     */
     static void insert_tx_state(TxStateHandle hd) {
-        std::lock_guard<std::shared_mutex> lk{mtx_hc_};
         handle_container_.insert(std::make_pair(hd, TxState()));
     }
 
@@ -173,14 +179,22 @@ public:
         return handle_ctr_.fetch_add(1);
     }
 
+    /**
+     * @brief get the mutex which protects the container and its elements from
+     * being released.
+     */
+    static std::shared_mutex& get_mtx_hc() { return mtx_hc_; }
+
     [[nodiscard]] epoch_t get_durable_epoch() const { return durable_epoch_; }
 
     [[nodiscard]] epoch_t get_serial_epoch() const { return serial_epoch_; }
 
     [[nodiscard]] Token get_token() { return token_; }
 
+    /**
+     * @pre the caller holds get_mtx_hc().
+     */
     static TxState& get_tx_state(TxStateHandle hd) {
-        std::shared_lock<std::shared_mutex> lk{mtx_hc_};
         return handle_container_.at(hd);
     }
 
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 9e4d54c..bf752ad 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -580,6 +580,9 @@ public:
     void set_current_tx_state_ptr(TxState* ptr) { current_tx_state_ptr_ = ptr; }
 
     void set_tx_state_if_valid(TxState::StateKind st) const {
+        if (!get_has_current_tx_state_handle()) { return; }
+        // block release of the handle
+        std::shared_lock<std::shared_mutex> lk{TxState::get_mtx_hc()};
         if (get_has_current_tx_state_handle()) {
             if (get_current_tx_state_ptr()->state_kind() != st) {
                 get_current_tx_state_ptr()->set_kind(st);
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 904c1c8..8ae34fa 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -665,6 +665,9 @@ Status check_wait_for_preceding_bt(session* const ti) {
 
 static void process_tx_state(session* ti,
                              [[maybe_unused]] epoch::epoch_t durable_epoch) {
+    if (!ti->get_has_current_tx_state_handle()) { return; }
+    // block release of the handle
+    std::shared_lock<std::shared_mutex> lk{TxState::get_mtx_hc()};
     if (ti->get_has_current_tx_state_handle()) {
 #ifdef PWAL
         // this tx state is checked
diff --git a/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp b/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
index 6b6483a..13da841 100644
--- a/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
+++ b/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
@@ -30,6 +30,9 @@ Status abort(session* const ti) {
 
 static void process_tx_state(session* const ti,
                              [[maybe_unused]] epoch::epoch_t const durable_epoch) {
+    if (!ti->get_has_current_tx_state_handle()) { return; }
+    // block release of the handle
+    std::shared_lock<std::shared_mutex> lk{TxState::get_mtx_hc()};
     if (ti->get_has_current_tx_state_handle()) {
 #ifdef PWAL
         // this tx state is checked
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 27ac97e..48d042a 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -770,6 +770,9 @@ static void register_range_read_by_short(session* const ti) {
 
 static void process_tx_state(session* ti,
                              [[maybe_unused]] epoch::epoch_t durable_epoch) {
+    if (!ti->get_has_current_tx_state_handle()) { return; }
+    // block release of the handle
+    std::shared_lock<std::shared_mutex> lk{TxState::get_mtx_hc()};
     if (ti->get_has_current_tx_state_handle()) {
 // this tx state is checked
 #ifdef PWAL
diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index 1a83da0..f13d695 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -24,13 +24,15 @@ static Status acquire_tx_state_handle_body(Token const token, // NOLINT
     }
 
     // generate tx state handle
-    ti->set_has_current_tx_state_handle(true);
     TxStateHandle hd{TxState::get_new_handle_ctr()};
-    ti->set_current_tx_state_handle(hd);
     handle = hd;
+    // block release of the handle
+    std::lock_guard<std::shared_mutex> lk{TxState::get_mtx_hc()};
     TxState::insert_tx_state(hd);
     TxState& ts{TxState::get_tx_state(hd)};
+    ti->set_current_tx_state_handle(hd);
     ti->set_current_tx_state_ptr(&ts);
+    ti->set_has_current_tx_state_handle(true);
     ts.set_token(token);
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
         ts.set_serial_epoch(0);
@@ -68,6 +70,8 @@ Status acquire_tx_state_handle(Token const token, // NOLINT
 static Status release_tx_state_handle_body(TxStateHandle handle) {
     if (handle == undefined_handle) { return Status::WARN_INVALID_HANDLE; }
     Token token{};
+    // block the tx and check_tx_state from using the state
+    std::lock_guard<std::shared_mutex> lk{TxState::get_mtx_hc()};
     auto rc{TxState::find_and_erase_tx_state(handle, token)};
     if (rc == Status::OK) {
         auto* ti{static_cast<session*>(token)};
@@ -89,6 +93,8 @@ Status release_tx_state_handle(TxStateHandle handle) {
 
 static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
     if (handle == undefined_handle) { return Status::WARN_INVALID_HANDLE; }
+    // block release of the handle
+    std::shared_lock<std::shared_mutex> lk{TxState::get_mtx_hc()};
     auto rc{TxState::find_and_get_tx_state(handle, out)};
     if (rc == Status::WARN_INVALID_HANDLE) { return rc; }
     // handle is valid
-- 
2.43.0


From fa226d7350b594beff90d4b95edea8aaddf836b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:39:24 +0000
Subject: [PATCH 47/48] fix: keep the read area limited when the forbidden
 storages cover all allowed ones

An empty list of allowed storages means that there is no such list.
When every allowed storage was also forbidden, the list became empty and the
transaction could read all other storages.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index da6d890..6cdc843 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -60,6 +60,10 @@ static void preprocess_read_area(transaction_options::read_area& ra) {
                 }
             }
         }
+        // nothing is left to read. an empty list would mean no limit.
+        if (ra.get_positive_list().empty()) {
+            ra.insert_to_positive_list(storage::dummy_storage);
+        }
     }
 }
 
-- 
2.43.0


From a961daf32993882a60b9a0b94148b62bd23f1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:03 +0000
Subject: [PATCH 48/48] fix: collect garbage of the storage that holds storage
 metadata

Deleting a storage deletes its entry in the metadata storage, and creating it
again adds a version to that entry. The garbage collector visits only listed
storages, and the metadata storage is not listed, so the deleted entries and
old versions stayed until shutdown.
---
 src/concurrency_control/garbage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index 25ea6d2..4878208 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <array>
 #include <sstream>
 #include <xmmintrin.h>
 
@@ -432,6 +433,10 @@ static inline void unhooking_keys_and_pruning_versions(stats_info_type& stats_in
                                 average_key_size, average_value_size));
         if (get_flag_cleaner_end()) { break; }
     }
+    // this is not listed, but each deletion of storages leaves garbage in it
+    std::array<std::size_t, 4> unused{};
+    unhooking_keys_and_pruning_versions_at_the_storage(
+            storage::meta_storage, unused[0], unused[1], unused[2], unused[3]);
 }
 
 static void force_release_key_memory() {
-- 
2.43.0

