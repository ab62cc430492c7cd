From f293890434cb5dd6713c9675c4f1f3c9fc26bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:41 +0000
Subject: [PATCH 01/51] fix: SizedBuf::cmp orders keys whose sizes differ by 2
 GiB or more correctly

---
 include/libjungle/sized_buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index d849ba4..4b00a3c 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -177,7 +177,7 @@ public:
             int cmp = memcmp(l.data, r.data, len);
             if (cmp != 0) return cmp;
             else {
-                return (int)((int)l.size - (int)r.size);
+                return (l.size < r.size) ? -1 : 1;
             }
         }
     }
-- 
2.43.0


From 6c0bcc0eaa27f0f238a09766b3a38d9fcf626d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:54 +0000
Subject: [PATCH 02/51] fix: FileOpsDirectIO::eof reports sizes of 2 GiB and
 more correctly

---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..e8a51cc 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -425,7 +425,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From 7fdfb100f72596bf15ab6dee9d7c7954cf6fb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:54 +0000
Subject: [PATCH 03/51] fix: FileOpsDirectIO::fsync is not skipped for data
 appended after a truncation

---
 src/fileops_directio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index e8a51cc..2d1874d 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -576,6 +576,10 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         phandle->bufPos = need_align;
     }
 
+    // Data to be written behind the truncated position is not synced yet.
+    phandle->fsyncedFilePos = std::min(phandle->fsyncedFilePos,
+                                       phandle->flushedFilePos);
+
     // Double check file size
     file_size_tmp = eof(fhandle);
     if (file_size_tmp < 0) return Status::ERROR;
-- 
2.43.0


From 7e75fdc3542bd372e862f1153a30745ba1c07470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:54 +0000
Subject: [PATCH 04/51] fix: FileOpsDirectIO::pread buffer fits every instance
 used by the thread

---
 src/fileops_directio.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 2d1874d..19ca0f9 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -288,13 +288,24 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
     // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
+    // (shared by all instances used by this thread, whose buffer and
+    //  alignment sizes can be different).
+    thread_local AlignedMemoryHolder buf_holder(nullptr);
+    thread_local size_t buf_holder_size = 0;
+    thread_local size_t buf_holder_align = 0;
+    if ( !buf_holder.bufPtr ||
+         buf_holder_size < bufferSize + alignSize ||
+         buf_holder_align < alignSize ) {
+        void* new_buf = nullptr;
+        Status as = allocAlignedBuf(&new_buf);
+        if (!as) return as;
+        free(buf_holder.bufPtr);
+        buf_holder.bufPtr = new_buf;
+        buf_holder_size = bufferSize + alignSize;
+        buf_holder_align = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
 
     Status s;
     size_t aligned_file_offset = offset;
-- 
2.43.0


From b379d6815abdf8583c75a841e0ac340ae4327d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 05/51] fix: skiplist_insert_nodup releases the rejected node's
 lock

---
 src/skiplist.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..cf9679e 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -464,6 +464,7 @@ insert_retry:
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
+                _sl_write_unlock_an(node);
                 return -1;
             }
 
-- 
2.43.0


From 0bbfe2a80be14f8335275c8db2aefcc009410bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:39 +0000
Subject: [PATCH 06/51] fix: RwSerializer::getSb does not return a buffer
 beyond the end of the memory

---
 src/internal_helper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..dc42730 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -184,6 +184,7 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
             s = get(s_buf_out.data, len);
             if (!s) s_buf_out.free();
         } else {
+            if (!available(len)) return Status::READ_VIOLATION;
             s_buf_out.data = dstPtr + curPos;
             s_buf_out.size = len;
             pos( pos() + len );
-- 
2.43.0


From e4ebf995ffb0759c237e4938a3e6e4f2176c497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:58 +0000
Subject: [PATCH 07/51] fix: table bloom filter includes tombstones so that
 deleted keys stay deleted

---
 src/table_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..61c0349 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -919,8 +919,10 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
+    if (rec.isIns() || rec.isDel()) {
         // Set bloom filter if exists.
+        // NOTE: A tombstone should be found as well, otherwise an older
+        //       value in the lower level becomes visible again.
         if (bfByKey) {
             uint64_t hash_pair[2];
             get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-- 
2.43.0


From 7a0e98a549f0337f37b4279121e550dacf34073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:49 +0000
Subject: [PATCH 08/51] fix: merged iterators skip or misplace records after a
 change of direction or a seek

An item's no_more_prev/no_more_next flag only says that the item is at its
first/last record; whether that record is before or after the cursor has to
be decided by comparing keys (sequence numbers). A SMALLER seek must not stop
at an item clamped to a record greater than the given key.
---
 src/db_internal.h     |  2 +-
 src/iterator.cc       | 35 ++++++++++++++++-------------------
 src/log_iterator.cc   | 35 ++++++++++++++++-------------------
 src/log_mgr.h         |  2 +-
 src/table_iterator.cc | 35 ++++++++++++++++-------------------
 src/table_mgr.h       |  2 +-
 6 files changed, 51 insertions(+), 60 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..08900c3 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(uint8_t skip_flags = 0x0);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..8730eb7 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -401,8 +401,12 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(uint8_t skip_flags) {
     windowCursor = avl_last(&curWindow);
+    while ( windowCursor &&
+            ( _get_entry(windowCursor, ItrInt::ItrItem, an)->flags & skip_flags ) ) {
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -534,12 +538,13 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Items clamped to a record greater than the given key are excluded.
+        moveToLastValid(ItrInt::ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
@@ -576,28 +581,20 @@ bool Iterator::IteratorInternal::checkValidBySeq(ItrInt::ItrItem* item,
                                                  const uint64_t cur_seq,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: The flags of the item say whether it is at its first or last
+    //       record, not on which side of the cursor that record is.
+    return is_prev
+           ? (item->lastRec.seqNum < cur_seq)
+           : (item->lastRec.seqNum > cur_seq);
 }
 
 bool Iterator::IteratorInternal::checkValidByKey(ItrInt::ItrItem* item,
                                                  const SizedBuf& cur_key,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: Same as in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 Status Iterator::close() {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..1854129 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,8 +409,12 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(uint8_t skip_flags) {
     windowCursor = avl_last(&curWindow);
+    while ( windowCursor &&
+            ( _get_entry(windowCursor, ItrItem, an)->flags & skip_flags ) ) {
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -524,12 +528,13 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Items clamped to a record greater than the given key are excluded.
+        moveToLastValid(ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
@@ -566,28 +571,20 @@ bool LogMgr::Iterator::checkValidBySeq(ItrItem* item,
                                        const uint64_t cur_seq,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: The flags of the item say whether it is at its first or last
+    //       record, not on which side of the cursor that record is.
+    return is_prev
+           ? (item->lastRec.seqNum < cur_seq)
+           : (item->lastRec.seqNum > cur_seq);
 }
 
 bool LogMgr::Iterator::checkValidByKey(ItrItem* item,
                                        const SizedBuf& cur_key,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: Same as in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 Status LogMgr::Iterator::close() {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..420e5d8 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -356,7 +356,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(uint8_t skip_flags = 0x0);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..c0cc8c4 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -369,8 +369,12 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(uint8_t skip_flags) {
     windowCursor = avl_last(&curWindow);
+    while ( windowCursor &&
+            ( _get_entry(windowCursor, ItrItem, an)->flags & skip_flags ) ) {
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -487,12 +491,13 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Items clamped to a record greater than the given key are excluded.
+        moveToLastValid(ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
@@ -514,28 +519,20 @@ bool TableMgr::Iterator::checkValidBySeq(ItrItem* item,
                                          const uint64_t cur_seq,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: The flags of the item say whether it is at its first or last
+    //       record, not on which side of the cursor that record is.
+    return is_prev
+           ? (item->lastRec.seqNum < cur_seq)
+           : (item->lastRec.seqNum > cur_seq);
 }
 
 bool TableMgr::Iterator::checkValidByKey(ItrItem* item,
                                          const SizedBuf& cur_key,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // NOTE: Same as in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..11081ef 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -427,7 +427,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(uint8_t skip_flags = 0x0);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From 2079e7221b43feb6e2c0529d7f70cafb530b44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:30 +0000
Subject: [PATCH 09/51] fix: memtable iterator seeks and sequence bounds
 respect the range and visibility

seekSN(SMALLER) always went to the end; seeks could land outside the range or
fail although a visible record exists on the other side; initSN could start on
a record outside the given bounds.
---
 src/memtable_iterator.cc | 57 +++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..c594db3 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -102,8 +102,7 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
 
-    if (min_local > mTable->maxSeqNum)
-        min_local = mTable->maxSeqNum;
+    if (min_local > mTable->maxSeqNum) return Status::OUT_OF_RANGE;
 
     minSeq = min_local;
 
@@ -127,6 +126,14 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
 
     maxSeq = max_local;
 
+    // Sequence numbers can have gaps.
+    RecNodeSeq* rn = _get_entry(cursor, RecNodeSeq, snode);
+    if (rn->rec->seqNum > maxSeq) {
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
+
     return Status();
 }
 
@@ -252,20 +259,26 @@ Status MemTable::Iterator::seek
     skiplist_node* node_to_release = cursor;
     skiplist_node* seek_node = nullptr;
 
+    // Given key can be out of the range of this iterator.
     const SizedBuf* query_key_ptr = &key;
-    if (opt == GREATER && key.empty() && !startKey.empty()) {
-        // gotoBegin, and start key is given.
-        query_key_ptr = &startKey;
+    if (opt == GREATER) {
+        if ( !startKey.empty() &&
+             ( key.empty() || SizedBuf::cmp(key, startKey) < 0 ) ) {
+            query_key_ptr = &startKey;
+        }
+    } else {
+        if (!endKey.empty() && SizedBuf::cmp(key, endKey) > 0) {
+            query_key_ptr = &endKey;
+        }
     }
     RecNode query(query_key_ptr);
 
-    bool fwd_search = true;
-
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
+            // If not found, backward search from the end.
             if (endKey.empty()) {
                 // End key is not given.
                 seek_node = skiplist_end(mTable->idxByKey);
@@ -275,33 +288,31 @@ Status MemTable::Iterator::seek
                 seek_node = skiplist_find_smaller_or_equal
                             ( mTable->idxByKey, &end_query.snode );
             }
-            // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
+            // If not found, forward search from the beginning.
             if (startKey.empty()) {
                 // Start key is not given.
                 seek_node = skiplist_begin(mTable->idxByKey);
             } else {
-                // End key is given.
+                // Start key is given.
                 RecNode start_query(&startKey);
                 seek_node = skiplist_find_greater_or_equal
                             ( mTable->idxByKey, &start_query.snode );
             }
-            // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
@@ -369,22 +380,32 @@ Status MemTable::Iterator::seekSN
     RecNodeSeq query(&rec);
     query.rec->seqNum = seqnum;
 
+    // The record found should be in the range of this iterator,
+    // otherwise pick the closest one in the range.
+    auto in_range = [this](skiplist_node* node) -> bool {
+        if (!node) return false;
+        uint64_t node_seq = _get_entry(node, RecNodeSeq, snode)->rec->seqNum;
+        return minSeq <= node_seq && node_seq <= maxSeq;
+    };
+
     if (opt == GREATER) {
         if (seqnum < minSeq) query.rec->seqNum = minSeq;
 
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxBySeq, &query.snode );
-        if (!seek_node) {
+        if (!in_range(seek_node)) {
+            if (seek_node) skiplist_release_node(seek_node);
             query.rec->seqNum = maxSeq;
             seek_node = skiplist_find_smaller_or_equal
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
-        if (!seek_node) {
+        if (!in_range(seek_node)) {
+            if (seek_node) skiplist_release_node(seek_node);
             query.rec->seqNum = minSeq;
             seek_node = skiplist_find_greater_or_equal
                         ( mTable->idxBySeq, &query.snode );
-- 
2.43.0


From 3078886989517cc0aef98aae3def44164fa4b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:30 +0000
Subject: [PATCH 10/51] fix: sequence iterator with a zero upper bound does not
 return all table records

---
 src/table_file_iterator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/table_file_iterator.cc b/src/table_file_iterator.cc
index 1fc9799..74c8b2a 100644
--- a/src/table_file_iterator.cc
+++ b/src/table_file_iterator.cc
@@ -103,6 +103,9 @@ Status TableFile::Iterator::initSN(DB* snap_handle,
     fdb_status fs;
     Status s;
 
+    // NOTE: ForestDB regards zero upper bound as no upper bound.
+    if (max_seq == 0) return Status::OUT_OF_RANGE;
+
     // Get last snap marker.
     fdb_seqnum_t snap_seqnum = 0;
     fdb_kvs_handle* fdb_snap = nullptr;
-- 
2.43.0


From 5c0417ece15f45a8889773c22fbe7835c25d6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:30 +0000
Subject: [PATCH 11/51] fix: snapshot sequence iterator keeps log records
 flushed after the snapshot was opened

---
 src/log_iterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 1854129..c1ffb5d 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -143,7 +143,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
                 }
                 l_info->grab(true);
             }
-            addLogFileItr(l_info, lMgr->getDbConfig()->logSectionOnly);
+            addLogFileItr(l_info, true);
         }
         snapLogList = snap_handle->sn->logList;
     }
-- 
2.43.0


From d807864fc21ca89ecbdadc3cc9d60437b2aba4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:30 +0000
Subject: [PATCH 12/51] fix: snapshot reads search the tables of the snapshot

After a flush or compaction the manifest has tables which do not belong to the
snapshot, so a point read returned an error or missed the data. Also, finding an
older version after a newer one was mistaken for an intolerable error.
---
 src/table_mgr.cc | 40 +++++++++++++++++++++++++++++++++-------
 src/table_mgr.h  |  4 ++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..84500b8 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -556,6 +556,21 @@ Status TableMgr::storeManifest() {
     return Status();
 }
 
+Status TableMgr::getTablesSnapshot(DB* snap_handle,
+                                   size_t level,
+                                   std::list<TableInfo*>& tables_out)
+{
+    // NOTE: The manifest may have been changed by compactions since
+    //       the snapshot was opened, should use the tables of that time.
+    if (!snap_handle->sn->tableList) return Status::INVALID_SNAPSHOT;
+    for (TableInfo* t_info: *snap_handle->sn->tableList) {
+        if (t_info->level != level) continue;
+        t_info->grab();
+        tables_out.push_back(t_info);
+    }
+    return Status();
+}
+
 Status TableMgr::get(DB* snap_handle,
                      Record& rec_inout,
                      bool meta_only)
@@ -571,14 +586,16 @@ Status TableMgr::get(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+        s = snap_handle
+            ? getTablesSnapshot(snap_handle, ii, tables)
+            : mani->getTablesPoint(ii, rec_inout.kv.key, tables);
         if (!s) continue;
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
         // Search smallest normal table first and then the others,
         // as it always has the newest data for the same key.
-        if (ii == 0) {
+        if (ii == 0 && !snap_handle) {
             sm_table = getSmallestNormalTable(tables);
             if (sm_table) {
                 Record new_rec;
@@ -629,7 +646,9 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if ( !s.ok() &&
+                     s != Status::KEY_NOT_FOUND &&
+                     s != Status::SNAPSHOT_NOT_FOUND ) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
@@ -711,7 +730,9 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
+        s = snap_handle
+            ? getTablesSnapshot(snap_handle, ii, tables)
+            : mani->getTablesNearest(ii, key, tables, s_opt);
         if (!s) continue;
 
         bool found_intolerable_error = false;
@@ -731,7 +752,8 @@ Status TableMgr::getNearest(DB* snap_handle,
                                          meta_only );
             if (s) {
                 update_cur_nearest(returned_rec);
-            } else if (s != Status::KEY_NOT_FOUND) {
+            } else if ( s != Status::KEY_NOT_FOUND &&
+                        s != Status::SNAPSHOT_NOT_FOUND ) {
                 // This is intolerable error.
                 found_intolerable_error = true;
             }
@@ -761,7 +783,9 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
+        s = snap_handle
+            ? getTablesSnapshot(snap_handle, ii, tables)
+            : mani->getTablesPrefix(ii, prefix, tables);
         if (!s) continue;
 
         bool stopped = false;
@@ -772,7 +796,9 @@ Status TableMgr::getPrefix(DB* snap_handle,
             }
             table->done();
             if (s == Status::OPERATION_STOPPED) stopped = true;
-            if (!s.ok() && s != Status::KEY_NOT_FOUND) {
+            if ( !s.ok() &&
+                 s != Status::KEY_NOT_FOUND &&
+                 s != Status::SNAPSHOT_NOT_FOUND ) {
                 found_intolerable_error = true;
             }
         }
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 11081ef..5bbe3fc 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -497,6 +497,10 @@ protected:
                               TableFile*& table_file_out,
                               const TableFileOptions& t_opt);
 
+    Status getTablesSnapshot(DB* snap_handle,
+                             size_t level,
+                             std::list<TableInfo*>& tables_out);
+
     TableInfo* getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                    uint32_t target_hash_num = _SCU32(-1));
 
-- 
2.43.0


From b406a901d6786374923281182aa0dcc6a3faae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:35 +0000
Subject: [PATCH 13/51] fix: find the end of the log manifest by the number of
 log files

A process dying between overwriting the manifest and truncating its tail
left stale bytes after the data, which made the manifest unreadable, its
backup stale, and the newest log files removed as unknown at the next open.
---
 src/log_manifest.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..068c9fb 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -260,10 +260,23 @@ Status LogManifest::load(const std::string& path,
     size_t file_size = fOps->eof(mFile);
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
-    // Footer check
     RwSerializer ss(fOps, mFile);
+
+    // NOTE: `storeInternal()` overwrites the file first, and then truncates
+    //       the tail. If the process dies in between, there can be stale bytes
+    //       after the manifest data. Hence, we should rely on the number of
+    //       log files rather than on the file size.
+    const size_t MANI_HEADER_SIZE = 8 * 3 + 4;
+    const size_t MANI_ENTRY_SIZE = 8 * 4;
+    if (file_size < MANI_HEADER_SIZE + 16) throw Status(Status::FILE_CORRUPTION);
+    ss.pos(MANI_HEADER_SIZE - 4);
+    size_t mani_size = MANI_HEADER_SIZE + ss.getU32(s) * MANI_ENTRY_SIZE + 16;
+    if (!s) throw s;
+    if (file_size < mani_size) throw Status(Status::FILE_CORRUPTION);
+
+    // Footer check
     uint8_t chk_footer[8];
-    ss.pos(file_size - 16);
+    ss.pos(mani_size - 16);
     ss.get(chk_footer, 8);
     if (memcmp(LOGMANI_FOOTER, chk_footer, 8) != 0) {
         throw Status(Status::FILE_CORRUPTION);
@@ -276,7 +289,7 @@ Status LogManifest::load(const std::string& path,
     // CRC check
     uint32_t crc_file = ss.getU32(s);
 
-    SizedBuf chk_buf(file_size - 4);
+    SizedBuf chk_buf(mani_size - 4);
     SizedBuf::Holder h_chk_buf(chk_buf);
     ss.pos(0);
     ss.get(chk_buf.data, chk_buf.size);
-- 
2.43.0


From c43c829d0514e7615b4779d764f358ff190e27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:35 +0000
Subject: [PATCH 14/51] fix: do not reuse sequence numbers of a log file's
 unsynced tail after recovery

Sequence numbers of the files after a log file that was found to hold more
records than the manifest says now start after those records.
---
 src/log_manifest.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 068c9fb..4a3cf09 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -459,6 +459,15 @@ Status LogManifest::load(const std::string& path,
         }
         first_file_read = true;
 
+        // The file may contain more records than what the manifest knows,
+        // sequence numbers of the following files should start after them.
+        uint64_t max_seq_in_file = l_file->getMaxSeqNum();
+        if ( valid_number(max_seq_in_file) &&
+             ( !valid_number(last_synced_seq) ||
+               last_synced_seq < max_seq_in_file ) ) {
+            last_synced_seq = max_seq_in_file;
+        }
+
         _log_info( myLog,
                    "log %ld, min seq %s, last flush %s, last sync %s",
                    l_file_num,
-- 
2.43.0


From b227ba1474838715533df56cc38c48c3eff251a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:56 +0000
Subject: [PATCH 15/51] fix: nearest search in a memtable goes on past
 invisible and flushed keys

The search gave up (not found) when the closest key in the memtable had no
version visible to the snapshot, or was already flushed into tables, even
if the next key was valid.
---
 src/memtable.cc | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..29d7832 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -660,24 +660,36 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
         }
     }
 
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
-    }
-
-    if ( !allow_tombstone && rec_ret->isDel() ) {
-        // Last operation is deletion.
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
+    Record* rec_ret = nullptr;
+    while (true) {
+        bool found = true;
+        rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
+        if (!rec_ret) {
+            // No visible version of this key.
+            found = false;
+        } else if ( valid_number(flushedSeqNum) &&
+                    rec_ret->seqNum <= flushedSeqNum &&
+                    !allow_flushed_log ) {
+            // Already purged KV pair, go to table
+            // (tolerate if this is snapshot).
+            found = false;
+        } else if ( !allow_tombstone && rec_ret->isDel() ) {
+            // Last operation is deletion.
+            found = false;
+        }
+        if (found) break;
+
+        // Nearest search: the next closest key can be valid.
+        skiplist_node* prev_cursor = cursor;
+        cursor = nullptr;
+        if (s_opt.isGreater()) {
+            cursor = skiplist_next(idxByKey, prev_cursor);
+        } else if (s_opt.isSmaller()) {
+            cursor = skiplist_prev(idxByKey, prev_cursor);
+        }
+        skiplist_release_node(prev_cursor);
+        if (!cursor) return Status::KEY_NOT_FOUND;
+        node = _get_entry(cursor, RecNode, snode);
     }
     rec_out = *rec_ret;
     skiplist_release_node(&node->snode);
-- 
2.43.0


From e5f94f2ebbcb1324fb03956e626e613244cca461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:54 +0000
Subject: [PATCH 16/51] fix: prefix search on a snapshot reads the log section
 of the snapshot

It iterated over the current log section, so it returned records written
after the snapshot and missed the ones flushed after it.
---
 src/jungle.cc  | 6 ++----
 src/log_mgr.cc | 5 ++---
 src/log_mgr.h  | 3 +--
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..a15ff04 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -846,9 +846,8 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     };
 
     Record rec_local;
-    uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
-    std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->getPrefix(chknum, l_list, prefix, cb_wrapper);
+    DB* snap_handle = (this->sn)?(this):(nullptr);
+    s = p->logMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if (s == Status::OPERATION_STOPPED) {
         // User wants to stop, return OK.
         return Status::OK;
@@ -858,7 +857,6 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     }
 
     // Key not found or user wants to continue, search tables.
-    DB* snap_handle = (this->sn)?(this):(nullptr);
     s = p->tableMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if ( !s.ok() &&
          s != Status::OPERATION_STOPPED &&
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..67668b0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1154,8 +1154,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
 #else
 // Iterator based implementation, which provides snapshot and key ordering.
-Status LogMgr::getPrefix(const uint64_t chk,
-                         std::list<LogFileInfo*>* l_list,
+Status LogMgr::getPrefix(DB* snap_handle,
                          const SizedBuf& prefix,
                          SearchCbFunc cb_func)
 {
@@ -1170,7 +1169,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
     };
 
     // Create an iterator, starting from prefix.
-    s = itr.init(nullptr, this, prefix, dummy);
+    s = itr.init(snap_handle, this, prefix, dummy);
     do {
         Record rec;
         s = itr.get(rec);
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 420e5d8..b49a5ef 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -196,8 +196,7 @@ public:
                       Record& rec_out,
                       SearchOptions s_opt);
 
-    Status getPrefix(const uint64_t chk,
-                     std::list<LogFileInfo*>* l_list,
+    Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
                      SearchCbFunc cb_func);
 
-- 
2.43.0


From ddd389e8e1cac6fd27421a5705e65abc5621674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:04 +0000
Subject: [PATCH 17/51] fix: a batch on an empty log section is not visible
 until it is complete

The visible sequence number barrier of an empty log section was 0, which
meant no barrier.
---
 src/global_batch.cc |  2 +-
 src/log_iterator.cc |  2 +-
 src/log_mgr.cc      | 22 ++++++++++++----------
 src/log_mgr.h       |  4 ++--
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..e9201cb 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->setVisibleSeqBarrier(NOT_INITIALIZED);
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index c1ffb5d..31294b3 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -110,7 +110,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     //   fetching `visibleSeqBarrier` should be done AFTER
     //   fetching max seq number (`getAvailSeqRange` above).
     uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
+    if ( valid_number(visible_seq_barrier) &&
          maxSeqSnap > visible_seq_barrier ) {
         maxSeqSnap = visible_seq_barrier;
     }
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 67668b0..a782ca3 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -704,11 +704,12 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     // All writes will be serialized, except for throttling part.
     std::unique_lock<std::recursive_mutex> wm(writeMutex); // -----------------
 
+    // NOTE: Empty log should be tolerated, nothing is visible in that case.
     uint64_t max_seq = 0;
-    getMaxSeqNum(max_seq); // empty log should be tolerated.
+    getMaxSeqNum(max_seq);
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        setVisibleSeqBarrier(NOT_INITIALIZED);
     } );
 
     EP( checkBatchValidity(batch) );
@@ -845,7 +846,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = gg->file->getMaxSeqNum();
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
     if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
+         ( valid_number(visible_seq_barrier) &&
            seq_num > visible_seq_barrier ) ) {
         return Status::KEY_NOT_FOUND;
     }
@@ -918,7 +919,7 @@ Status LogMgr::get(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1037,7 +1038,7 @@ Status LogMgr::getNearest(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1133,7 +1134,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1265,8 +1266,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
-                                     after_sync ) );
+        if (!seq_barrier) continue; // Nothing is visible yet.
+        EP( li->file->flushMemTable(seq_barrier, after_sync) );
         if (call_fsync) {
             EP( li->file->sync() );
         }
@@ -1839,7 +1840,8 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     const size_t MAX_TRY = 16;
 
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
+    if (valid_number(visible_seq_barrier)) {
+        if (!visible_seq_barrier) return Status::LOG_NOT_EXIST;
         seq_num_out = visible_seq_barrier;
         return Status();
     }
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b49a5ef..6f23662 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -433,8 +433,8 @@ protected:
     std::atomic<int64_t> numSetRecords;
 
     /**
-     * If non-zero, records up to this number (inclusive) will be
-     * visible to user.
+     * If valid number, records up to this number (inclusive) will be
+     * visible to user. Zero means that no record is visible.
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
-- 
2.43.0


From ed45b820c50a17e3ef5325c292708fa90fe17060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:04 +0000
Subject: [PATCH 18/51] fix: flush does not merge records of a batch in
 progress into tables

The barrier was overwritten by the given sequence number, so a flush
concurrent with a batch made a part of it visible.
---
 src/log_mgr.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index a782ca3..4746780 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1407,11 +1407,6 @@ Status LogMgr::flush(const FlushOptions& options,
     }
 
     uint64_t seq_num_local = seq_num;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
-        seq_num_local = seq_barrier;
-    }
-
     if (seq_num_local == NOT_INITIALIZED) {
         // Purge all synced (checkpointed) logs.
 
@@ -1443,10 +1438,19 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
         mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
     }
+
+    // Records of a batch in progress should not be flushed.
+    // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
+    //          fetching max seq number.
+    uint64_t seq_barrier = getVisibleSeqBarrier();
+    if (!seq_barrier) {
+        // Nothing is visible yet.
+        return Status::LOG_NOT_SYNCED;
+    }
+    seq_num_local = std::min(seq_num_local, seq_barrier);
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
 
-- 
2.43.0


From 4d529eba6cd5bf5d0427343bbf7e9942e7324325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:58 +0000
Subject: [PATCH 19/51] fix: discarded records do not break iteration by key

---
 src/memtable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 29d7832..381abdd 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -106,8 +106,8 @@ uint64_t MemTable::RecNode::getMinSeq() {
     mGuard l(recListLock);
     auto entry = recList->begin();
     if (entry == recList->end()) {
-        // Shouldn't happen.
-        assert(0);
+        // All records of this key have been discarded.
+        return NOT_INITIALIZED;
     }
     Record* rec = *entry;
     return rec->seqNum;
-- 
2.43.0


From 9150fb1b8852daafb05f9e6a877e89ed6522d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:49:17 +0000
Subject: [PATCH 20/51] fix: a checkpoint that is only in tables can be opened
 as a snapshot

---
 src/log_mgr.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 4746780..eaf1abc 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -404,8 +404,13 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     }
 
     // Get log file numbers.
-    EP( mani->getMinLogFileNum(l_num_min) );
-    EP( mani->getLogFileNumBySeq(checkpoint, l_num_max) );
+    s = mani->getMinLogFileNum(l_num_min);
+    if (s) s = mani->getLogFileNumBySeq(checkpoint, l_num_max);
+    if (!s) {
+        // No log file contains the given checkpoint,
+        // the snapshot consists of tables only.
+        break;
+    }
 
     bool log_store_mode = getDbConfig()->logSectionOnly;
     bool retry_init = false;
@@ -436,6 +441,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                 }
             }
 
+            l_list->clear();
             retry_init = true;
             break;
         }
-- 
2.43.0


From dd4c9404b13f5aa4f12c4301ae4826cf30f580f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:07 +0000
Subject: [PATCH 21/51] fix: key ranges and exact matches in a memtable use the
 custom comparison

---
 src/memtable.cc          | 14 +++++++++++++-
 src/memtable.h           |  2 ++
 src/memtable_iterator.cc | 16 ++++++++--------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 381abdd..4fa921d 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -325,6 +325,18 @@ int MemTable::cmpKey(skiplist_node *a, skiplist_node *b, void *aux) {
     return SizedBuf::cmp(aa->key, bb->key);
 }
 
+int MemTable::cmpKeyBuf(const SizedBuf& a, const SizedBuf& b) const {
+    CMP_NULL_CHK(a.data, b.data);
+
+    const DBConfig* db_config = logFile->logMgr->getDbConfig();
+    if (db_config->cmpFunc) {
+        // Custom cmp
+        return db_config->cmpFunc(a.data, a.size, b.data, b.size,
+                                  db_config->cmpFuncParam);
+    }
+    return SizedBuf::cmp(a, b);
+}
+
 Status MemTable::getReady() {
     // Set custom cmp function if given.
     if (logFile->logMgr->getDbConfig()->cmpFunc) {
@@ -646,7 +658,7 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
     if (!s_opt.isExactMatchAllowed()) {
         // Exact match is not allowed. Move the cursor if the current
         // cursor is pointing to the same key.
-        while (SizedBuf::cmp(key, node->key) == 0) {
+        while (cmpKeyBuf(key, node->key) == 0) {
             skiplist_node* prev_cursor = cursor;
             if (s_opt == SearchOptions::GREATER) {
                 cursor = skiplist_next(idxByKey, prev_cursor);
diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..0f27e59 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -43,6 +43,8 @@ public:
 
     static int cmpKey(skiplist_node *a, skiplist_node *b, void *aux);
 
+    int cmpKeyBuf(const SizedBuf& a, const SizedBuf& b) const;
+
     Status init(const uint64_t start_seq_num = 0);
 
     Status assignSeqNum(Record& rec_local);
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index c594db3..d39a647 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -45,7 +45,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && mTable->cmpKeyBuf(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +59,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && mTable->cmpKeyBuf(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -167,7 +167,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeyBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -213,7 +213,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeyBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -263,11 +263,11 @@ Status MemTable::Iterator::seek
     const SizedBuf* query_key_ptr = &key;
     if (opt == GREATER) {
         if ( !startKey.empty() &&
-             ( key.empty() || SizedBuf::cmp(key, startKey) < 0 ) ) {
+             ( key.empty() || mTable->cmpKeyBuf(key, startKey) < 0 ) ) {
             query_key_ptr = &startKey;
         }
     } else {
-        if (!endKey.empty() && SizedBuf::cmp(key, endKey) > 0) {
+        if (!endKey.empty() && mTable->cmpKeyBuf(key, endKey) > 0) {
             query_key_ptr = &endKey;
         }
     }
@@ -328,7 +328,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeyBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -348,7 +348,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeyBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 6eaa5f07388dea20db52bd2c6c732099cc8dd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:07 +0000
Subject: [PATCH 22/51] fix: compressed records larger than the original do not
 overflow the log buffer

---
 src/memtable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 4fa921d..bcc287e 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1406,7 +1406,7 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
         crc_data = crc32_8(value_ref.data, value_ref.size, crc_data);
         TC( ss_tmp_buf.putU32(crc_data) );
 
-        size_t data_len = rec->kv.key.size + rec->kv.value.size + rec->meta.size;
+        size_t data_len = rec->kv.key.size + value_ref.size + rec->meta.size;
         if (data_len >= PAGE_LIMIT) {
             // Data itself is bigger than a page, flush and bypass buffer.
             TC( rws.put(tmp_buf.data, ss_tmp_buf.pos()) );
-- 
2.43.0


From e8c9b5bed6ad97eb5ad09a7ebcd1ea096debb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:10 +0000
Subject: [PATCH 23/51] fix: a log file is loaded again after a rollback also
 without a log file TTL

---
 src/log_manifest.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 4a3cf09..da38414 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -709,7 +709,7 @@ Status LogManifest::getLogFileInfo(const uint64_t log_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(logMgr->getDbConfig()->logSectionOnly);
     }
     skiplist_release_node(cursor);
     return Status();
@@ -747,7 +747,7 @@ Status LogManifest::getLogFileInfoRange(const uint64_t s_log_inc,
         if (force_not_load_memtable) {
             l_info->grab();
         } else {
-            l_info->grab(isLogReclaimerActive());
+            l_info->grab(logMgr->getDbConfig()->logSectionOnly);
         }
         info_out.push_back(l_info);
 
@@ -815,7 +815,7 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(logMgr->getDbConfig()->logSectionOnly);
     }
     skiplist_release_node(cursor);
     return Status();
-- 
2.43.0


From 5adc994d738de9481c5fcc313da149dbe57cf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:55 +0000
Subject: [PATCH 24/51] fix: reading a snapshot loads a mem-table purged since
 the snapshot was opened

---
 src/log_mgr.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index eaf1abc..50066d3 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -882,6 +882,9 @@ Status LogMgr::get(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // The mem-table may have been purged since the snapshot was opened.
+            l_info->grab(getDbConfig()->logSectionOnly);
+            LogFileInfoGuard g_li(l_info);
             s = l_info->file->get(chk_local, key, rec_out_local, true, true);
             if (s) {
                 rec_out_local.copyTo(rec_out);
@@ -993,6 +996,9 @@ Status LogMgr::getNearest(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // The mem-table may have been purged since the snapshot was opened.
+            l_info->grab(getDbConfig()->logSectionOnly);
+            LogFileInfoGuard g_li(l_info);
             s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                          true, true, s_opt);
             if (s) {
@@ -1103,6 +1109,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // The mem-table may have been purged since the snapshot was opened.
+            l_info->grab(getDbConfig()->logSectionOnly);
+            LogFileInfoGuard g_li(l_info);
             s = l_info->file->getPrefix(chk_local, prefix, cb_func, true, true);
             if (s == Status::OPERATION_STOPPED) return s;
             entry++;
-- 
2.43.0


From 3a8b0faadb3a3308afd969732b12f7af582a9b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:28 +0000
Subject: [PATCH 25/51] fix: flush and purge are refused on a read-only handle

---
 src/jungle.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jungle.cc b/src/jungle.cc
index a15ff04..80f362e 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -1081,6 +1081,9 @@ Status DB::DBInternal::checkHandleValidity(OpType op_type) {
                   op_type);
         return Status::ROLLBACK_IN_PROGRESS;
     }
+    if (op_type != DBInternal::OPTYPE_READ && dbConfig.readOnly) {
+        return Status::WRITE_VIOLATION;
+    }
     return Status::OK;
 }
 
-- 
2.43.0


From 19811cc0daadb02ebdced189b987ea2b953c2035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:28 +0000
Subject: [PATCH 26/51] fix: opening a log section without valid log file in
 read-only mode creates none

---
 src/log_file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..df05808 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -137,6 +137,15 @@ Status LogFile::create(const std::string& _filename,
     fOps = _f_ops;
     logFileNum = log_file_num;
 
+    if (logMgr->getDbConfig()->readOnly) {
+        // Read-only mode: should not touch any file, mem-table only.
+        integrity = IntegrityTypes::VALID;
+        mTable = new MemTable(this);
+        mTable->setLogger(myLog);
+        touch();
+        return mTable->init(start_seq_num);
+    }
+
     if (fOps->exist(filename)) {
         // Previous file exists, which means that there is a legacy log file.
         // We should overwrite it.
-- 
2.43.0


From 495aa4695860b27d1bd6547f4a56eb1cace240c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:32 +0000
Subject: [PATCH 27/51] fix: with a log file TTL, log files that may have more
 records than the manifest knows are loaded on open

---
 src/log_file.cc     | 5 +++--
 src/log_file.h      | 3 ++-
 src/log_manifest.cc | 7 ++++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index df05808..378b394 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -191,7 +191,8 @@ Status LogFile::load(const std::string& _filename,
                      uint64_t log_file_num,
                      uint64_t min_seq,
                      uint64_t flushed_seq,
-                     uint64_t synced_seq)
+                     uint64_t synced_seq,
+                     bool lazy_load_allowed)
 {
     touch();
 
@@ -209,7 +210,7 @@ Status LogFile::load(const std::string& _filename,
     memTableOnFileMeta.flushedSeq = flushed_seq;
     memTableOnFileMeta.syncedSeq = synced_seq;
     memTableOnFileMeta.maxSeq = synced_seq;
-    if (logMgr->isLogStoreMode()) {
+    if (logMgr->isLogStoreMode() && lazy_load_allowed) {
         // If reclaim mode, load mem-table lazily.
         memtablePurged = true;
         return Status();
diff --git a/src/log_file.h b/src/log_file.h
index 7386ee5..a2df40e 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -60,7 +60,8 @@ public:
                 uint64_t log_file_num,
                 uint64_t min_seq,
                 uint64_t flushed_seq,
-                uint64_t synced_seq);
+                uint64_t synced_seq,
+                bool lazy_load_allowed);
 
     Status loadMemTable();
 
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index da38414..df2a7f8 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -308,6 +308,7 @@ Status LogManifest::load(const std::string& path,
               lastSyncedLog.load(), num_log_files);
 
     uint64_t last_synced_seq = NOT_INITIALIZED;
+    const uint64_t last_synced_log_num = lastSyncedLog.load(MOR);
 
     bool first_file_read = false;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
@@ -401,7 +402,11 @@ Status LogManifest::load(const std::string& path,
         }
 
         s = l_file->load(l_filename, fLogOps, l_file_num,
-                         min_seq, purged_seq, synced_seq);
+                         min_seq, purged_seq, synced_seq,
+                         // The last synced log file and files after that may
+                         // contain more than what the manifest knows.
+                         valid_number(last_synced_log_num) &&
+                             l_file_num < last_synced_log_num);
         if (!s) {
             _s_warn(myLog) << "log file " << l_file_num << " read error: " << s;
             if ( s == Status::FILE_NOT_EXIST ||
-- 
2.43.0


From 8823c5db17e53ec87f9e4cb72f1f9fcfe4b0dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:32 +0000
Subject: [PATCH 28/51] fix: an empty log file left by a crash is dropped in
 log section mode

---
 src/log_manifest.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index df2a7f8..9836e99 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -464,6 +464,22 @@ Status LogManifest::load(const std::string& path,
         }
         first_file_read = true;
 
+        if ( db_config->logSectionOnly &&
+             db_config->truncateInconsecutiveLogs &&
+             getNumLogFiles() &&
+             valid_number(min_seq) &&
+             valid_number(synced_seq) &&
+             l_file->getMaxSeqNum() < min_seq ) {
+            // The records of this file were lost by abnormal shutdown.
+            // If it stays, the next DB open will remove all log files
+            // written after it.
+            _log_warn(myLog, "log file %zu is empty, remove it", l_file_num);
+            delete l_file;
+            maxLogFileNum.store(l_file_num-1, MOR);
+            lastSyncedLog.store(l_file_num-1, MOR);
+            break;
+        }
+
         // The file may contain more records than what the manifest knows,
         // sequence numbers of the following files should start after them.
         uint64_t max_seq_in_file = l_file->getMaxSeqNum();
-- 
2.43.0


From d2f634992488a7f2a099274617d0f4e87194e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:58:01 +0000
Subject: [PATCH 29/51] fix: a table migrated to the next level is kept as long
 as a snapshot refers to it in either level

---
 src/table_file.cc     | 1 +
 src/table_file.h      | 7 +++++++
 src/table_manifest.cc | 2 ++
 src/table_manifest.h  | 9 +++++----
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 61c0349..7d12667 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -240,6 +240,7 @@ TableFile::TableFile(const TableMgr* table_mgr)
     , fOps(nullptr)
     , tableMgr(table_mgr)
     , tableInfo(nullptr)
+    , numOwners(0)
     , writer(nullptr)
     , bfByKey(nullptr)
     , tlbByKey(nullptr)
diff --git a/src/table_file.h b/src/table_file.h
index 13d4097..561a7e7 100644
--- a/src/table_file.h
+++ b/src/table_file.h
@@ -218,6 +218,10 @@ public:
 
     void setTableInfo(TableInfo* t_info) { tableInfo = t_info; }
 
+    // Number of table info (of different levels) sharing this file object.
+    void addOwner() { numOwners.fetch_add(1); }
+    bool releaseOwner() { return numOwners.fetch_sub(1) == 1; }
+
     SimpleLogger* getLogger() const { return myLog; }
 
     Status getStats(TableStats& stats_out);
@@ -420,6 +424,9 @@ private:
     // Corresponding table info.
     TableInfo* tableInfo;
 
+    // Number of table info sharing this file object.
+    std::atomic<uint64_t> numOwners;
+
     // ForestDB writer handles
     FdbHandle* writer;
 
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..f2e1abe 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -253,6 +253,7 @@ Status TableManifest::load(const std::string& path,
 
             t_info->file = t_file;
             t_info->file->setTableInfo(t_info);
+            t_info->file->addOwner();
 
             bool add_to_skiplist = true;
             if (add_to_skiplist) {
@@ -476,6 +477,7 @@ Status TableManifest::addTableFile(size_t level,
     TableInfo* t_info = new TableInfo(level, t_file->getNumber(), hash_num);
     t_info->file = t_file;
     t_info->file->setTableInfo(t_info);
+    t_info->file->addOwner();
     t_info->file->setLogger(myLog);
     min_key.copyTo(t_info->minKey);
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..e248bb6 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -98,10 +98,11 @@ struct TableInfo {
                       level, number, count, count-1, status.load(),
                       get_on_off_str(migration) );
             if (count == 1) {
-                // NOTE: We should not remove file object if this
-                //       table is being migrated to next level, as
-                //       next level's table info will reuse it.
-                if (!migration) {
+                // NOTE: If this table is migrated to next level, the file
+                //       object is shared by both levels' table info, and
+                //       snapshots may keep the old one longer than the new one.
+                //       The last one should remove it.
+                if (file->releaseOwner()) {
                     file->destroySelf();
                     delete file;
                 }
-- 
2.43.0


From 3be5c1353acd3abbe60dbdfd78dbccde4c5614c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:52 +0000
Subject: [PATCH 30/51] fix: the thread pool waits for busy threads at shutdown
 and cancels a task assigned but not executed

---
 src/simple_thread_pool.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index f5a3f9c..7f039d7 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -310,9 +310,13 @@ public:
         if (tHandle && tHandle->joinable()) {
             tHandle->join();
         }
-        myself.reset();
         tHandle.reset();
-        assignedTask.reset();
+        if (assignedTask) {
+            // Assigned, but the thread stopped before executing it.
+            assignedTask->cancel();
+            assignedTask.reset();
+        }
+        myself.reset();
     }
 
     void loop() {
@@ -412,6 +416,7 @@ public:
             for (size_t ii = 0; ii < myOpt.numInitialThreads; ++ii) {
                 std::shared_ptr<ThreadHandle> t_handle( new ThreadHandle(this, ii) );
                 idleThreads.push_back(t_handle);
+                allThreads.push_back(t_handle);
                 t_handle->init(t_handle);
             }
         }
@@ -428,16 +433,18 @@ public:
         }
         loopThread.reset();
 
-        do {
-            std::shared_ptr<ThreadHandle> t_handle_to_free = nullptr;
-            {   std::lock_guard<std::mutex> l(idleThreadsLock);
-                auto entry = idleThreads.begin();
-                if (entry == idleThreads.end()) break;
-                t_handle_to_free = *entry;
-                idleThreads.erase(entry);
-            }
-            t_handle_to_free->shutdown();
-        } while (true);
+        // Wait for busy threads as well as idle ones: they refer to this manager
+        // until they finish.
+        std::list< std::shared_ptr<ThreadHandle> > threads_to_free;
+        {   std::lock_guard<std::mutex> l(idleThreadsLock);
+            threads_to_free.swap(allThreads);
+        }
+        for (auto& entry: threads_to_free) {
+            entry->shutdown();
+        }
+        {   std::lock_guard<std::mutex> l(idleThreadsLock);
+            idleThreads.clear();
+        }
 
         std::list< std::shared_ptr<TaskHandle> > tasks_to_cancel;
         {   std::lock_guard<std::mutex> l(timedTasksLock);
@@ -627,6 +634,11 @@ private:
 
     // List of idle threads.
     std::list< std::shared_ptr<ThreadHandle> > idleThreads;
+
+    // List of all (i.e., idle and busy) threads.
+    std::list< std::shared_ptr<ThreadHandle> > allThreads;
+
+    // Lock for `idleThreads` and `allThreads`.
     std::mutex idleThreadsLock;
 };
 
-- 
2.43.0


From 29acf89d911ae320d1140a5ba03fce3ae4991b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:11 +0000
Subject: [PATCH 31/51] fix: a spurious wakeup does not end EventAwaiter's wait

---
 src/event_awaiter.h      | 7 +++++--
 src/simple_thread_pool.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/event_awaiter.h b/src/event_awaiter.h
index c11726d..75b7e76 100644
--- a/src/event_awaiter.h
+++ b/src/event_awaiter.h
@@ -55,10 +55,12 @@ public:
             std::unique_lock<std::mutex> l(cvLock);
             expected = AS::ready;
             if (status.compare_exchange_strong(expected, AS::waiting)) {
+                // Note: a spurious wakeup should not end the wait.
+                auto invoked = [this]() { return status.load() != AS::waiting; };
                 if (time_us) {
-                    cv.wait_for(l, std::chrono::microseconds(time_us));
+                    cv.wait_for(l, std::chrono::microseconds(time_us), invoked);
                 } else {
-                    cv.wait(l);
+                    cv.wait(l, invoked);
                 }
                 status.store(AS::done);
             } else {
@@ -84,6 +86,7 @@ public:
             // Do nothing.
         } else {
             // wait() is waiting for ack.
+            status.store(AS::done);
             cv.notify_all();
         }
     }
diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index 7f039d7..9dee019 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -61,10 +61,12 @@ public:
             std::unique_lock<std::mutex> l(cvLock);
             expected = AS::ready;
             if (status.compare_exchange_strong(expected, AS::waiting)) {
+                // Note: a spurious wakeup should not end the wait.
+                auto invoked = [this]() { return status.load() != AS::waiting; };
                 if (time_us) {
-                    cv.wait_for(l, std::chrono::microseconds(time_us));
+                    cv.wait_for(l, std::chrono::microseconds(time_us), invoked);
                 } else {
-                    cv.wait(l);
+                    cv.wait(l, invoked);
                 }
                 status.store(AS::done);
             } else {
@@ -90,6 +92,7 @@ public:
             // Do nothing.
         } else {
             // wait() is waiting for ack.
+            status.store(AS::done);
             cv.notify_all();
         }
     }
-- 
2.43.0


From 3aa012e15c2a70209e70bc2d686af17e04e797ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:50:56 +0000
Subject: [PATCH 32/51] fix: assignments of ashared_ptr do not deadlock, and
 compare_exchange releases the object it replaced

---
 src/ashared_ptr.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ashared_ptr.h b/src/ashared_ptr.h
index 40ae0db..16fe11e 100644
--- a/src/ashared_ptr.h
+++ b/src/ashared_ptr.h
@@ -61,11 +61,14 @@ public:
     }
 
     void operator=(const ashared_ptr<T>& src) {
-        std::lock_guard<std::mutex> l(lock);
-
+        // Note: should not hold the lock of this pointer while acquiring the
+        //       lock of `src`. Otherwise it will be a deadlock if `src` is
+        //       this pointer, or is being replaced by this pointer.
         ashared_ptr<T>& writable_src = const_cast<ashared_ptr<T>&>(src);
         PtrWrapper<T>* src_object = writable_src.shareCurObject();
 
+        std::lock_guard<std::mutex> l(lock);
+
         // Replace object.
         PtrWrapper<T>* old = object.load(MO);
         object.store(src_object, MO);
@@ -104,7 +107,7 @@ public:
             if (object.compare_exchange_weak(expected_ptr, val_ptr)) {
                 // Succeeded.
                 // Release old object.
-                releaseObject(expected.object.load(MO));
+                releaseObject(expected_ptr);
                 return true;
             }
         }
-- 
2.43.0


From 2e3de93fb007d1ec8e7c937e262f372042993b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:54:11 +0000
Subject: [PATCH 33/51] fix: failed truncation and fsync of a backup or
 restored file are reported

---
 src/internal_helper.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index dc42730..9a05459 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -288,9 +288,9 @@ Status BackupRestore::copyFile(FileOps* f_ops,
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -340,9 +340,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -389,11 +389,11 @@ Status BackupRestore::backup(FileOps* f_ops,
                         bytes_to_skip ) );
     }
     if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From cf307b65ad10e85df2f8f7404446c9aecb084d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:07 +0000
Subject: [PATCH 34/51] fix: all elements of a lookup booster slot are guarded
 by one lock

---
 src/table_lookup_booster.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/table_lookup_booster.cc b/src/table_lookup_booster.cc
index ccc827c..e41a1c1 100644
--- a/src/table_lookup_booster.cc
+++ b/src/table_lookup_booster.cc
@@ -45,8 +45,9 @@ size_t TableLookupBooster::size() const {
 }
 
 Status TableLookupBooster::get(uint32_t h_value, uint64_t& offset_out) {
-    size_t lock_idx = h_value % elemsLock.size();
+    // Note: elements sharing the same slot should share the lock as well.
     size_t elem_idx = h_value % elems.size();
+    size_t lock_idx = elem_idx % elemsLock.size();
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
@@ -58,8 +59,9 @@ Status TableLookupBooster::get(uint32_t h_value, uint64_t& offset_out) {
 }
 
 Status TableLookupBooster::setIfNew(const TableLookupBooster::Elem& elem) {
-    size_t lock_idx = elem.hValue() % elemsLock.size();
+    // Note: elements sharing the same slot should share the lock as well.
     size_t elem_idx = elem.hValue() % elems.size();
+    size_t lock_idx = elem_idx % elemsLock.size();
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
-- 
2.43.0


From 15e2ed01223f68d7c395d448c76fce65305f4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:11 +0000
Subject: [PATCH 35/51] fix: group manifest overran its buffer on names of 256
 bytes or more, and did not use its backup

---
 src/db_manifest.cc | 55 +++++++++++++++++++++++++++++++++++++++-------
 src/db_manifest.h  |  6 ++++-
 src/jungle.cc      |  2 +-
 3 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index e0e5fb9..55d5682 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -66,7 +66,8 @@ Status DBManifest::create(const std::string& path,
 }
 
 Status DBManifest::load(const std::string& path,
-                        const std::string& filename)
+                        const std::string& filename,
+                        bool read_only)
 {
     if (!fOps) return Status::NOT_INITIALIZED;
     if (mFile) return Status::ALREADY_LOADED;
@@ -75,10 +76,36 @@ Status DBManifest::load(const std::string& path,
     dirPath = path;
     mFileName = filename;
 
+    Status s = loadFile(mFileName);
+    if (s) return s;
+
+    // Error happened, try again using backup file.
+    std::string backup_name = mFileName + ".bak";
+    _log_err(myLog, "loading DB manifest error: %d, try again", s);
+    if (!fOps->exist(backup_name.c_str())) return s;
+
+    Status s_backup;
+    if (read_only) {
+        // Should not touch any file in read-only mode.
+        s_backup = loadFile(backup_name);
+    } else {
+        s_backup = BackupRestore::restore(fOps, mFileName);
+        if (s_backup) s_backup = loadFile(mFileName);
+    }
+    return (s_backup) ? s_backup : s;
+}
+
+Status DBManifest::loadFile(const std::string& filename) {
     Status s;
+    if (mFile) {
+        fOps->close(mFile);
+        DELETE(mFile);
+    }
+    NameToID.clear();
+    IDToName.clear();
 
-    _log_debug(myLog, "Load DB manifest %s", mFileName.c_str());
-    EP( fOps->open(&mFile, mFileName.c_str()) );
+    _log_debug(myLog, "Load DB manifest %s", filename.c_str());
+    EP( fOps->open(&mFile, filename.c_str()) );
 
     // File should be bigger than 12 bytes (footer + version + CRC32).
     size_t file_size = fOps->eof(mFile);
@@ -116,15 +143,17 @@ Status DBManifest::load(const std::string& path,
 
     _log_debug(myLog, "Max KVS ID %ld, # KVS %d", maxKVSID.load(), num_kvs);
 
-    char kvs_name_buf[256];
     for (uint32_t ii=0; ii<num_kvs; ++ii) {
         uint64_t kvs_id = ss.getU64(s);
         uint32_t name_len = ss.getU32(s);
-        kvs_name_buf[name_len] = 0;
-        s = ss.get(kvs_name_buf, name_len);
+        if (!ss.available(name_len)) return Status::FILE_CORRUPTION;
+
+        std::string kvs_name_str(name_len, 0x0);
+        if (name_len) {
+            EP( ss.get(&kvs_name_str[0], name_len) );
+        }
 
-        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_buf);
-        std::string kvs_name_str(kvs_name_buf);
+        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_str.c_str());
         NameToID.insert( std::make_pair(kvs_name_str, kvs_id) );
         IDToName.insert( std::make_pair(kvs_id, kvs_name_str) );
     }
@@ -208,6 +237,16 @@ Status DBManifest::addNewKVS(const std::string& kvs_name)
     return Status();
 }
 
+Status DBManifest::removeKVS(const std::string& kvs_name)
+{
+    auto entry = NameToID.find(kvs_name);
+    if (entry == NameToID.end()) return Status::KVS_NOT_FOUND;
+
+    IDToName.erase(entry->second);
+    NameToID.erase(entry);
+    return Status();
+}
+
 Status DBManifest::getKVSID(const std::string& kvs_name,
                             uint64_t& kvs_id_out)
 {
diff --git a/src/db_manifest.h b/src/db_manifest.h
index 62a815f..3879974 100644
--- a/src/db_manifest.h
+++ b/src/db_manifest.h
@@ -37,9 +37,11 @@ public:
     Status create(const std::string& path,
                   const std::string& filename);
     Status load(const std::string& path,
-                const std::string& filename);
+                const std::string& filename,
+                bool read_only = false);
     Status store(bool call_fsync);
     Status addNewKVS(const std::string& kvs_name);
+    Status removeKVS(const std::string& kvs_name);
     Status getKVSID(const std::string& kvs_name,
                     uint64_t& kvs_id_out);
     Status getKVSName(const uint64_t kvs_id,
@@ -48,6 +50,8 @@ public:
     void setLogger(SimpleLogger* logger) { myLog = logger; }
 
 private:
+    Status loadFile(const std::string& filename);
+
     FileOps* fOps;
     FileHandle* mFile;
     std::string dirPath;
diff --git a/src/jungle.cc b/src/jungle.cc
index 80f362e..2b8324e 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -124,7 +124,7 @@ Status DB::open(DB** ptr_out,
         db->p->mani = new DBManifest(db->p->fOps);
         db->p->mani->setLogger(db->p->myLog);
         std::string m_filename = db->p->path + "/db_manifest";
-        db->p->mani->load(db->p->path, m_filename);
+        db->p->mani->load(db->p->path, m_filename, db_config.readOnly);
     } else {
         // Create DB manifest.
         db->p->mani = new DBManifest(db->p->fOps);
-- 
2.43.0


From a2c67c3f974390c50d85053e9a97ce9f82793970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:11 +0000
Subject: [PATCH 36/51] fix: opening a database of a group reports what failed
 instead of handing out a broken handle

---
 src/db_group.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/db_group.cc b/src/db_group.cc
index 9d004da..eba1381 100644
--- a/src/db_group.cc
+++ b/src/db_group.cc
@@ -100,7 +100,10 @@ Status DBGroup::openDB(DB** ptr_out,
 
     Status s;
 
+   try {
     db = new DB();
+    // Not a default DB, should not destroy shared objects on error.
+    db->p->kvsID = NOT_INITIALIZED;
     db->p->path = src->p->path;
     db->p->fOps = new FileOpsPosix;
     db->p->fDirectOps =
@@ -117,13 +120,16 @@ Status DBGroup::openDB(DB** ptr_out,
     s = db->p->mani->getKVSID(db_name, db->p->kvsID);
     if (!s) {
         // Create a new KVS
-        s = db->p->mani->addNewKVS(db_name);
-        if (!s) return s;
-
-        s = db->p->mani->getKVSID(db_name, db->p->kvsID);
-        if (!s) return s;
-
-        db->p->mani->store(true);
+        TC( db->p->mani->addNewKVS(db_name) );
+        TC( db->p->mani->getKVSID(db_name, db->p->kvsID) );
+
+        s = db->p->mani->store(true);
+        if (!s) {
+            // The new KVS is not durable: other KVS may get the same ID
+            // after restart. We should not use it.
+            db->p->mani->removeKVS(db_name);
+            throw s;
+        }
     }
 
     db->p->kvsName = db_name;
@@ -137,7 +143,7 @@ Status DBGroup::openDB(DB** ptr_out,
     log_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->logMgr = new LogMgr(db);
     db->p->logMgr->setLogger(db->p->myLog);
-    db->p->logMgr->init(log_mgr_opt);
+    TC( db->p->logMgr->init(log_mgr_opt) );
 
     TableMgrOptions table_mgr_opt;
     table_mgr_opt.fOps = db->p->fOps;
@@ -146,7 +152,7 @@ Status DBGroup::openDB(DB** ptr_out,
     table_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->tableMgr = new TableMgr(db);
     db->p->tableMgr->setLogger(db->p->myLog);
-    db->p->tableMgr->init(table_mgr_opt);
+    TC( db->p->tableMgr->init(table_mgr_opt) );
 
     // In case of previous crash,
     // sync table's last seqnum if log is lagging behind.
@@ -162,6 +168,12 @@ Status DBGroup::openDB(DB** ptr_out,
     *ptr_out = db;
 
     return Status();
+
+   } catch (Status s) {
+    db->p->destroy();
+    delete db;
+    return s;
+   }
 }
 
 }
-- 
2.43.0


From 4628126514b8e0225517f53e5f9a340531912246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:22 +0000
Subject: [PATCH 37/51] fix: a database whose first creation was interrupted
 opens again

---
 src/log_mgr.cc   | 29 +++++++++++++++----
 src/table_mgr.cc | 75 ++++++++++++++++++++++++++++++++++++------------
 src/table_mgr.h  |  2 ++
 3 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 50066d3..e9be855 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -104,18 +104,33 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
         _log_info(myLog, "open custom manifest: %s", m_filename.c_str());
     }
 
+    bool initial_setup = false;
     if (opt.fOps->exist(m_filename.c_str())) {
         // Manifest file already exists, load it.
         s = mani->load(opt.path, m_filename, opt.prefixNum);
         if (!s) {
             // Error happened, try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
-            s = mani->load(opt.path, m_filename, opt.prefixNum);
+            if ( !opt.fOps->exist(m_filename + ".bak") &&
+                 !opt.dbConfig->readOnly &&
+                 opt.dbConfig->customManifestPath.empty() ) {
+                // Backup file is created before the first log file. If it
+                // does not exist, the initial setup was not finished.
+                _log_warn(myLog, "initial setup was not finished, do it again");
+                TC(opt.fOps->remove(m_filename));
+                initial_setup = true;
+            } else {
+                TC(BackupRestore::restore(opt.fOps, m_filename));
+                s = mani->load(opt.path, m_filename, opt.prefixNum);
+                if (!s) throw s;
+            }
         }
-        if (!s) throw s;
 
     } else {
+        initial_setup = true;
+    }
+
+    if (initial_setup) {
         // Not exist, initial setup phase.
 
         // If `m_filename` is from custom path, should return error.
@@ -171,8 +186,10 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     if (mani->getNumLogFiles() == 0) {
         // No valid log file exists. Start from zero.
         _log_warn(myLog, "no valid log file exists, start from 0");
+        uint64_t log_num = 0;
+        TC(mani->issueLogFileNumber(log_num));
         std::string l_filename =
-                LogFile::getLogFileName(opt.path, opt.prefixNum, 0);
+                LogFile::getLogFileName(opt.path, opt.prefixNum, log_num);
         LogFile* l_file = new LogFile(this);
         l_file->setLogger(myLog);
 
@@ -181,9 +198,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
                           opt.dbConfig->directIoOpt.enabled
                               && FileOps::supportDirectIO()
                           ? opt.fDirectOps : opt.fOps,
-                          0,
+                          log_num,
                           0));
-        TC(mani->addNewLogFile(0, l_file, 1));
+        TC(mani->addNewLogFile(log_num, l_file, 1));
 
        } catch (Status s) {
         delete l_file;
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 84500b8..860f9db 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -198,17 +198,32 @@ Status TableMgr::init(const TableMgrOptions& _options) {
     }
 
    try {
+    bool initial_setup = false;
     if (opt.fOps->exist(m_filename.c_str())) {
         // Manifest file already exists, load it.
         s = mani->load(opt.path, opt.prefixNum, m_filename);
         if (!s) {
             // Error happened, try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
-            s = mani->load(opt.path, opt.prefixNum, m_filename);
+            if ( !opt.fOps->exist(m_filename + ".bak") &&
+                 !db_config->readOnly &&
+                 opt.dbConfig->customManifestPath.empty() ) {
+                // Backup file is created along with the first manifest. If it
+                // does not exist, the initial setup was not finished.
+                _log_warn(myLog, "initial setup was not finished, do it again");
+                TC(opt.fOps->remove(m_filename));
+                initial_setup = true;
+            } else {
+                TC(BackupRestore::restore(opt.fOps, m_filename));
+                s = mani->load(opt.path, opt.prefixNum, m_filename);
+                if (!s) throw s;
+            }
         }
-        if (!s) throw s;
+    } else {
+        initial_setup = true;
+    }
 
+    if (!initial_setup) {
         // Check & adjust num level-0 partitions.
         size_t ii = 0;
         size_t num_tables = 0;
@@ -250,9 +265,22 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         // Adjust num L0 partitions blockingly only when it is not logSectionOnly mdoe,
         // not read only mode, and the number of L0 partitions read from existing manifest
         // file is different from the number specified in db config.
+        size_t total_tables = 0;
+        for (size_t jj = 0; jj < mani->getNumLevels(); ++jj) {
+            size_t level_tables = 0;
+            mani->getNumTables(jj, level_tables);
+            total_tables += level_tables;
+        }
+
         if (!db_config->logSectionOnly &&
             !db_config->readOnly &&
-            numL0Partitions != db_config->numL0Partitions) {
+            total_tables == 0) {
+            // Process was terminated before the initial setup was finished.
+            TC( createL0Partitions() );
+
+        } else if (!db_config->logSectionOnly &&
+                   !db_config->readOnly &&
+                   numL0Partitions != db_config->numL0Partitions) {
             s = adjustNumL0Partitions();
             if (!s.ok()) {
                 // If failed to adjust num L0 partitions, tolerate it.
@@ -274,27 +302,16 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         s = mani->create(opt.path, m_filename);
         if (!s) return s;
 
-        numL0Partitions = db_config->numL0Partitions;
         if ( !db_config->logSectionOnly &&
              !db_config->readOnly ) {
             // Hash partition.
-            for (size_t ii=0; ii<numL0Partitions; ++ii) {
-                TableFile* t_file = nullptr;
-                TableFileOptions t_opt;
-                // Set 1M bits as an initial size.
-                // It will be converging to some value as compaction happens.
-                t_opt.bloomFilterSize = 1024 * 1024;
-                EP( createNewTableFile(0, t_file, t_opt) );
-                EP( mani->addTableFile(0, ii, SizedBuf(), t_file) );
-            }
+            TC( createL0Partitions() );
 
         } else {
             // Otherwise: table section is disabled.
             numL0Partitions = 0;
+            mani->store(true);
         }
-
-        // Store manifest file.
-        mani->store(true);
     }
 
     compactStatus.resize(numL0Partitions);
@@ -320,6 +337,27 @@ Status TableMgr::init(const TableMgrOptions& _options) {
    }
 }
 
+Status TableMgr::createL0Partitions() {
+    Status s;
+
+    // Files left behind by the previous incomplete setup, if exist.
+    removeStaleFiles();
+
+    numL0Partitions = getDbConfig()->numL0Partitions;
+    for (size_t ii=0; ii<numL0Partitions; ++ii) {
+        TableFile* t_file = nullptr;
+        TableFileOptions t_opt;
+        // Set 1M bits as an initial size.
+        // It will be converging to some value as compaction happens.
+        t_opt.bloomFilterSize = 1024 * 1024;
+        EP( createNewTableFile(0, t_file, t_opt) );
+        EP( mani->addTableFile(0, ii, SizedBuf(), t_file) );
+    }
+
+    // Store manifest file.
+    return mani->store(true);
+}
+
 Status TableMgr::adjustNumL0Partitions() {
     Status s;
     const DBConfig* db_config = getDbConfig();
@@ -973,7 +1011,8 @@ Status TableMgr::close() {
     do {
         wait_more = false;
         // non-LSM mode compaction.
-        for (size_t ii=0; ii<numL0Partitions; ++ii) {
+        // NOTE: `compactStatus` is empty if the initialization failed.
+        for (size_t ii=0; ii<compactStatus.size(); ++ii) {
             if (compactStatus[ii]->load()) {
                 wait_more = true;
                 break;
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 5bbe3fc..6f5727b 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -159,6 +159,8 @@ public:
 
     Status init(const TableMgrOptions& _options);
 
+    Status createL0Partitions();
+
     Status adjustNumL0Partitions();
 
     Status removeStaleFiles();
-- 
2.43.0


From bcf9945c548e3b7c69bc5a2917d6ab3e7ec68b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:22 +0000
Subject: [PATCH 38/51] fix: a failed table write or commit is reported, so
 that logs are not purged and tables not removed after it

---
 src/table_compaction.cc      | 16 +++++++-
 src/table_file.cc            |  8 +++-
 src/table_file_compaction.cc | 14 ++++++-
 src/table_mgr.h              |  6 +--
 src/table_set_batch.cc       | 72 ++++++++++++++++++++----------------
 src/table_split.cc           | 42 +++++++++++++--------
 src/table_writer.cc          |  4 +-
 src/table_writer.h           |  3 ++
 8 files changed, 110 insertions(+), 55 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..df956d4 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -412,6 +412,9 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         if (is_last_level) mani->extendLevel();
     }
 
+    // The first failure among the writers, if any.
+    Status write_s;
+
     for (size_t ii = 0; ii < num_new_tables; ) {
         size_t upto_orig = std::min(ii + max_writers, num_new_tables);
 
@@ -432,7 +435,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             if (!new_tables[jj]->table) {
                 TableFileOptions t_opt;
                 s = createNewTableFile(level + 1, cur_file, t_opt);
-                if (!s) continue;
+                if (!s) {
+                    if (write_s.ok()) write_s = s;
+                    continue;
+                }
             } else {
                 cur_file = new_tables[jj]->table->file;
             }
@@ -444,6 +450,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             uint64_t count = (jj + 1 == num_new_tables)
                              ? offsets.size() - new_tables[jj]->index
@@ -468,6 +475,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (write_s.ok()) write_s = w_args->result;
             }
         }
 
@@ -479,6 +487,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (write_s.ok()) write_s = w_args->result;
         }
 
         if (!isCompactionAllowed()) {
@@ -486,6 +495,11 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             for (LsmFlushResult& rr: results) delete rr.tFile;
             throw Status(Status::COMPACTION_CANCELLED);
         }
+        if (!write_s) {
+            // NOTE: Ditto.
+            for (LsmFlushResult& rr: results) delete rr.tFile;
+            throw write_s;
+        }
 
         ii += leased_writers + 1;
     }
diff --git a/src/table_file.cc b/src/table_file.cc
index 7d12667..b5179eb 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1009,7 +1009,13 @@ Status TableFile::setBatch(std::list<Record*>& batch,
 
     if (!bulk_load_mode) {
         // Commit and update index node (not in bulk load mode).
-        writer->commit();
+        Status s = writer->commit();
+        if (!s) {
+            _log_err(myLog, "failed to commit table file %zu_%zu: %d",
+                     tableMgr->getTableMgrOptions()->prefixNum,
+                     myNumber, (int)s);
+            return s;
+        }
 
         // Pre-load & keep the snapshot of latest table file data.
         updateSnapshot();
diff --git a/src/table_file_compaction.cc b/src/table_file_compaction.cc
index d204cc0..4abd0c8 100644
--- a/src/table_file_compaction.cc
+++ b/src/table_file_compaction.cc
@@ -334,7 +334,12 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
         saveBloomFilter(dst_filename + ".bf", dst_bf, true);
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    Status commit_s = dst_handle->commit();
+    if (!commit_s) {
+        _log_err(myLog, "failed to commit %s: %d",
+                 dst_filename.c_str(), (int)commit_s);
+        if (s.ok()) s = commit_s;
+    }
 
     if (itr) {
         fs = fdb_iterator_close(itr);
@@ -543,7 +548,12 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         saveBloomFilter(dst_filename + ".bf", dst_bf, true);
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    Status commit_s = dst_handle->commit();
+    if (!commit_s) {
+        _log_err(myLog, "failed to commit %s: %d",
+                 dst_filename.c_str(), (int)commit_s);
+        if (s.ok()) s = commit_s;
+    }
 
     // Close iterator first.
     gc_my_itr.gcNow();
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 6f5727b..e76203e 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -293,7 +293,7 @@ public:
         return allowCompaction || tableAdjInProgress;
     }
 
-    void setTableFile(std::list<Record*>& batch,
+    Status setTableFile(std::list<Record*>& batch,
                       std::list<uint64_t>& checkpoints,
                       bool bulk_load_mode,
                       TableFile* table_file,
@@ -301,14 +301,14 @@ public:
                       const SizedBuf& min_key,
                       const SizedBuf& next_min_key);
 
-    void setTableFileOffset(std::list<uint64_t>& checkpoints,
+    Status setTableFileOffset(std::list<uint64_t>& checkpoints,
                             TableFile* src_file,
                             TableFile* dst_file,
                             std::vector<uint64_t>& offsets,
                             uint64_t start_index,
                             uint64_t count);
 
-    void setTableFileItrFlush(TableFile* dst_file,
+    Status setTableFileItrFlush(TableFile* dst_file,
                               std::list<Record*>& recs_batch,
                               bool without_commit);
 
diff --git a/src/table_set_batch.cc b/src/table_set_batch.cc
index b8686aa..3bda4ce 100644
--- a/src/table_set_batch.cc
+++ b/src/table_set_batch.cc
@@ -24,20 +24,21 @@ limitations under the License.
 namespace jungle {
 
 // Used for log -> L0 flush.
-void TableMgr::setTableFile( std::list<Record*>& batch,
-                             std::list<uint64_t>& checkpoints,
-                             bool bulk_load_mode,
-                             TableFile* table_file,
-                             uint32_t target_hash,
-                             const SizedBuf& min_key,
-                             const SizedBuf& next_min_key )
+Status TableMgr::setTableFile( std::list<Record*>& batch,
+                               std::list<uint64_t>& checkpoints,
+                               bool bulk_load_mode,
+                               TableFile* table_file,
+                               uint32_t target_hash,
+                               const SizedBuf& min_key,
+                               const SizedBuf& next_min_key )
 {
-    table_file->setBatch( batch,
-                          checkpoints,
-                          min_key,
-                          next_min_key,
-                          target_hash,
-                          bulk_load_mode );
+    Status s;
+    EP( table_file->setBatch( batch,
+                              checkpoints,
+                              min_key,
+                              next_min_key,
+                              target_hash,
+                              bulk_load_mode ) );
 
     if (myLog->debugAllowed()) {
         _log_debug( myLog,
@@ -47,15 +48,16 @@ void TableMgr::setTableFile( std::list<Record*>& batch,
                     min_key.toReadableString().c_str(),
                     next_min_key.toReadableString().c_str() );
     }
+    return s;
 }
 
 // Used for in-place/inter-level compaction, split/merge.
-void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
-                                   TableFile* src_file,
-                                   TableFile* dst_file,
-                                   std::vector<uint64_t>& offsets,
-                                   uint64_t start_index,
-                                   uint64_t count) {
+Status TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
+                                     TableFile* src_file,
+                                     TableFile* dst_file,
+                                     std::vector<uint64_t>& offsets,
+                                     uint64_t start_index,
+                                     uint64_t count) {
     const DBConfig* db_config = getDbConfig();
     (void)db_config;
 
@@ -99,8 +101,7 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         s = src_file->getByOffset(nullptr, offsets[ii], rec_out);
         if (!s) {
             _log_fatal(myLog, "failed to read record at %zu", offsets[ii]);
-            assert(0);
-            continue;
+            throw s;
         }
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
@@ -109,8 +110,8 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         //   Since `rec_out` from `getByOffset` contains raw meta and
         //   compressed value (if enabled), we should skip processing
         //   meta and compression.
-        dst_file->setSingle(key_hash_val, rec_out, offset_out,
-                            true, dst_level + 1 == num_levels);
+        TC( dst_file->setSingle(key_hash_val, rec_out, offset_out,
+                                true, dst_level + 1 == num_levels) );
         total_dirty += rec_out.size();
 
         if (d_params.compactionItrScanDelayUs) {
@@ -138,9 +139,10 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
     }
 
     // Final commit, and generate snapshot on it.
-    setTableFileItrFlush(dst_file, recs_batch, false);
+    TC( setTableFileItrFlush(dst_file, recs_batch, false) );
     _log_info(myLog, "(end of batch) set total %zu records, %zu us, %zu us for flush",
               count, elapsed_timer.getUs(), time_for_flush_us);
+    return s;
 
    } catch (Status s) { // -----------------------------------
     _log_err(myLog, "got error: %d", (int)s);
@@ -150,24 +152,26 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         rr->free();
         delete rr;
     }
+    return s;
    }
 }
 
-void TableMgr::setTableFileItrFlush(TableFile* dst_file,
-                                    std::list<Record*>& recs_batch,
-                                    bool without_commit)
+Status TableMgr::setTableFileItrFlush(TableFile* dst_file,
+                                      std::list<Record*>& recs_batch,
+                                      bool without_commit)
 {
     SizedBuf empty_key;
     std::list<uint64_t> dummy_chk;
 
-    dst_file->setBatch( recs_batch, dummy_chk,
-                        empty_key, empty_key, _SCU32(-1),
-                        without_commit );
+    Status s = dst_file->setBatch( recs_batch, dummy_chk,
+                                   empty_key, empty_key, _SCU32(-1),
+                                   without_commit );
     for (Record* rr: recs_batch) {
         rr->free();
         delete rr;
     }
     recs_batch.clear();
+    return s;
 }
 
 Status TableMgr::setBatch(std::list<Record*>& batch,
@@ -212,6 +216,9 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
     size_t num_partitions = getNumL0Partitions();
     size_t max_writers = getDbConfig()->getMaxParallelWriters();
 
+    // The first failure among the writers, if any.
+    Status write_s;
+
     // For the case where `num_partitions > num_writers`.
     for (size_t ii = 0; ii < num_partitions; ) {
         size_t upto_orig = std::min(ii + max_writers, num_partitions);
@@ -235,6 +242,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             // Find target table for the given hash number.
             std::list<TableInfo*> tables;
@@ -266,6 +274,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (write_s.ok()) write_s = w_args->result;
             }
         }
 
@@ -277,6 +286,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (write_s.ok()) write_s = w_args->result;
         }
 
         if ( db_mgr &&
@@ -292,7 +302,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
     // Release all target tables.
     for (TableInfo*& entry: target_tables) entry->done();
 
-    return Status();
+    return write_s;
 }
 
 } // namespace jungle
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..7ae3989 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -251,6 +251,9 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     size_t max_writers = db_config->getMaxParallelWriters();
     std::list<uint64_t> dummy_chk;
 
+    // The first failure among the writers, if any.
+    Status write_s;
+
     for (size_t ii=0; ii<num_new_tables; ) {
         size_t upto_orig = std::min(ii + max_writers, num_new_tables);
 
@@ -270,7 +273,10 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             TableFile* cur_file = nullptr;
             TableFileOptions t_opt;
             s = createNewTableFile(level, cur_file, t_opt);
-            if (!s) continue;
+            if (!s) {
+                if (write_s.ok()) write_s = s;
+                continue;
+            }
 
             TableWriterArgs local_args;
             local_args.myLog = myLog;
@@ -279,6 +285,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             uint64_t count = (jj + 1 == num_new_tables)
                              ? offsets.size() - start_indexes[jj]
@@ -298,6 +305,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (write_s.ok()) write_s = w_args->result;
             }
         }
 
@@ -309,9 +317,11 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (write_s.ok()) write_s = w_args->result;
         }
 
         if (!isCompactionAllowed()) throw Status(Status::COMPACTION_CANCELLED);
+        if (!write_s) throw write_s;
 
         ii += leased_writers + 1;
     }
@@ -463,19 +473,19 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
 
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels) );
         total_count++;
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit.
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     {   // Grab lock, add first, and then remove next.
         std::lock_guard<std::mutex> l(mani->getLock());
@@ -633,28 +643,30 @@ Status TableMgr::fixTable(const CompactOptions& options,
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
         if (!skip_record) {
-            local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
-                                          false, level + 1 == num_levels);
+            TC( local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
+                                              false, level + 1 == num_levels) );
             total_moved_count++;
         }
         total_count++;
 
         // Should remove the key from target table.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels, true);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels, true) );
 
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit (for both).
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
-    local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    // WARNING: The records were moved from the target table, so that the
+    //          removal of them should be durable after they are.
+    TC( local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     // There is no manifest change. Just remove the flag.
     local_victim->prevTableSearchRequired = false;
diff --git a/src/table_writer.cc b/src/table_writer.cc
index e3d3187..b801df0 100644
--- a/src/table_writer.cc
+++ b/src/table_writer.cc
@@ -154,7 +154,7 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
     if (args->payload.batch) {
         // Batch is given.
         SizedBuf empty_key;
-        args->payload.targetTableMgr->setTableFile
+        args->result = args->payload.targetTableMgr->setTableFile
             ( *args->payload.batch,
               *args->payload.checkpoints,
               args->payload.bulkLoadMode,
@@ -164,7 +164,7 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
 
     } else if (args->payload.sourceTableFile) {
         // Offset is given.
-        args->payload.targetTableMgr->setTableFileOffset
+        args->result = args->payload.targetTableMgr->setTableFileOffset
             ( *args->payload.checkpoints,
               args->payload.sourceTableFile,
               args->payload.targetTableFile,
diff --git a/src/table_writer.h b/src/table_writer.h
index 34a0699..5e96e68 100644
--- a/src/table_writer.h
+++ b/src/table_writer.h
@@ -161,6 +161,9 @@ struct TableWriterArgs {
     EventAwaiter callerAwaiter;
     std::atomic<bool> stopSignal;
     TableWritePayload payload;
+
+    // Result of the last write, valid once `payload` becomes empty.
+    Status result;
     SimpleLogger* myLog;
 };
 
-- 
2.43.0


From cf01f7f69075ead272d1256dcff17745dde743a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 39/51] fix: a new level was visible to other threads before it
 existed

---
 src/table_manifest.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index f2e1abe..fc6ed70 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -427,8 +427,9 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        // WARNING: Other threads read the list without lock,
+        //          the new level should be ready once it is visible.
+        levels.push_back(new LevelInfo());
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
-- 
2.43.0


From b23ee744b8c5757055624924f1f02eb9b44a300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 40/51] fix: a compaction collected its tables before it had
 the exclusive right to compact them

---
 src/table_compaction.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index df956d4..a4b856c 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -781,12 +781,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     Status s;
     const DBConfig* db_config = getDbConfig();
 
-    std::list<TableInfo*> tables;
-    s = mani->getL0Tables(hash_num, tables);
-    if (!s) {
-        _log_warn(myLog, "tables of hash %zu not found", hash_num);
-        return s;
-    }
+    if (hash_num >= compactStatus.size()) return Status::INVALID_PARAMETERS;
 
     bool exp = false;
     bool val = true;
@@ -796,6 +791,16 @@ Status TableMgr::compactL0(const CompactOptions& options,
         return Status::OPERATION_IN_PROGRESS;
     }
 
+    // WARNING: Tables should be collected after getting the exclusive right
+    //          above, otherwise another compaction may remove them in between.
+    std::list<TableInfo*> tables;
+    s = mani->getL0Tables(hash_num, tables);
+    if (!s) {
+        _log_warn(myLog, "tables of hash %zu not found", hash_num);
+        compactStatus[hash_num]->store(false);
+        return s;
+    }
+
     std::stringstream s_log_msg_prefix;
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     SimpleLogger* global_log = db_mgr->getLogger();
-- 
2.43.0


From d984f50168428aa790a908cdc2ef7b434e3210e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 41/51] fix: a record appended to an empty log file during a
 sync was regarded as synced without being written

---
 src/log_mgr.cc  | 8 +++++++-
 src/memtable.cc | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index e9be855..9935dda 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1310,7 +1310,13 @@ Status LogMgr::syncInternal(bool call_fsync) {
         //   risk that the manifest might write an incorrect syncedSeqNum in
         //   another call stack (e.g., addNewLogFile()). This could lead to
         //   data loss in the event of a crash.
-        li->file->setSyncedSeqNum(after_sync);
+        //
+        //   If nothing was written, it should not be updated at all: a record
+        //   that another thread appends right after the attempt would be
+        //   regarded as synced otherwise.
+        if (valid_number(after_sync)) {
+            li->file->setSyncedSeqNum(after_sync);
+        }
         _log_( log_level, myLog, "synced log file %zu, min seq %s, "
                "flush seq %s, sync seq %s -> %s, max seq %s",
                ii,
diff --git a/src/memtable.cc b/src/memtable.cc
index bcc287e..75b3b64 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1259,8 +1259,9 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
 // MemTable flush: skiplist (memory) -> log file. (disk)
 Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_out)
 {
-    if (minSeqNum == NOT_INITIALIZED) {
-        // No log in this file. Just do nothing and return OK.
+    if (minSeqNum == NOT_INITIALIZED || maxSeqNum == NOT_INITIALIZED) {
+        // No log in this file (or the very first one is being appended by
+        // other thread). Just do nothing and return OK.
         return Status();
     }
 
-- 
2.43.0


From 1dda8317fae472c467b84fae43c17d5d199dac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 42/51] fix: reads and iterators missed a table that a
 concurrent compaction moved to a new level

---
 src/table_iterator.cc |  8 +++++++-
 src/table_mgr.cc      | 23 ++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index c0cc8c4..d853533 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -47,6 +47,10 @@ Status TableMgr::Iterator::addTableItr(DB* snap_handle, TableInfo* t_info) {
     ItrItem* ctx = new ItrItem();
     ctx->tInfo = t_info;
     ctx->tItr = t_itr;
+    if (tables.size() <= t_info->level) {
+        // A level may have been added after the number of levels was obtained.
+        tables.resize(t_info->level + 1);
+    }
     tables[t_info->level].push_back(ctx);
 
     // If this iterator is out-of-range, `lastRec` will be empty.
@@ -141,7 +145,9 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
     } else {
         // Normal
-        for (size_t ii=0; ii<n_levels; ++ii) {
+        // NOTE: The number of levels may increase in the middle, by a compaction
+        //       that moves a table in the last level to a new level.
+        for (size_t ii=0; ii<tMgr->mani->getNumLevels(); ++ii) {
             std::list<TableInfo*> t_info_ret;
             SizedBuf empty_key;
             if (ii == 0) {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 860f9db..f3da08d 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -551,9 +551,9 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     SizedBuf empty_key;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: The number of levels may increase in the middle, by a compaction
+    //       that moves a table in the last level to a new level.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         s = mani->getTablesRange(ii, empty_key, empty_key, *t_list);
         if (!s) continue;
     }
@@ -620,9 +620,9 @@ Status TableMgr::get(DB* snap_handle,
 
     Status s;
     Record latest_rec;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: The number of levels may increase in the middle, by a compaction
+    //       that moves a table in the last level to a new level.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         s = snap_handle
             ? getTablesSnapshot(snap_handle, ii, tables)
@@ -761,12 +761,13 @@ Status TableMgr::getNearest(DB* snap_handle,
     };
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    //   The number of levels may increase in the middle, by a compaction
+    //   that moves a table in the last level to a new level.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         s = snap_handle
             ? getTablesSnapshot(snap_handle, ii, tables)
@@ -817,9 +818,9 @@ Status TableMgr::getPrefix(DB* snap_handle,
     if (db_config->logSectionOnly) return Status::KEY_NOT_FOUND;
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // NOTE: The number of levels may increase in the middle, by a compaction
+    //       that moves a table in the last level to a new level.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         s = snap_handle
             ? getTablesSnapshot(snap_handle, ii, tables)
-- 
2.43.0


From 780494ee05d8b2b8c9da5c1d1f18174414622c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 43/51] fix: a newly compacted table was used after other
 threads could remove it

---
 src/table_compaction.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index a4b856c..57b3cf1 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -731,13 +731,16 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
 
     // Add special checkpoint 0, for base snapshot.
+    // WARNING: Should be done before adding the file to the manifest, as other
+    //          threads may remove it from that moment.
     uint64_t new_file_last_seqnum = 0;
     newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
     newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+
     // Close the destination handle.
     local_victim->file->releaseDstHandle(dst_handle);
 
@@ -980,13 +983,15 @@ Status TableMgr::compactL0(const CompactOptions& options,
         TableFile* newly_compacted_file = new TableFile(this);
         newly_compacted_file->setLogger(myLog);
         newly_compacted_file->load(0, dst_table_num, dst_filename, opt.fOps, t_opt);
-        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
 
         // Add special checkpoint 0, for base snapshot.
+        // WARNING: Ditto (see `compactInPlace`).
         uint64_t new_file_last_seqnum = 0;
         newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
         newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
+
         // Remove old file from manifest, and delete it.
         mani->removeTableFile(0, origin_table);
         if (merge_table) mani->removeTableFile(0, merge_table);
-- 
2.43.0


From 7a2e11bd0a1d0e28d4e11523207dbba0ffcb9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 44/51] fix: a table that another compaction had already
 removed was compacted again

---
 src/table_compaction.cc | 17 +++++++++++++++++
 src/table_split.cc      | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 57b3cf1..fb33e3f 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -76,6 +76,13 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, {local_victim->number});
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING:
+    //   It was chosen before locking it: another thread may have compacted and
+    //   removed it in the meantime. Its records exist in other tables now.
+    if (local_victim->isRemoved()) throw Status(Status::TABLE_NOT_FOUND);
+
+    // The last level may have been extended in the meantime.
+    is_last_level = (level + 1 == mani->getNumLevels());
 
     // Get overlapping tables.
     SizedBuf min_key_victim = local_victim->minKey;
@@ -103,6 +110,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // Lock destination tables.
     TableLockHolder tl_dst_holder( this, table_list_to_number(tables) );
     if (!tl_dst_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    for (TableInfo* entry: tables) {
+        // Ditto.
+        if (entry->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     TableStats victim_stats;
     local_victim->file->getStats(victim_stats);
@@ -625,6 +636,10 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, table_list_to_number(tables));
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    for (TableInfo* entry: tables) {
+        // WARNING: Ditto (see `compactLevelItr`).
+        if (entry->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     mani->extendLevel();
 
@@ -698,6 +713,8 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     // Lock victim table.
     TableLockHolder tl_holder(this, {local_victim->number});
     if (!tl_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: Ditto (see `compactLevelItr`).
+    if (local_victim->isRemoved()) throw Status(Status::TABLE_NOT_FOUND);
 
     uint64_t dst_table_num = 0;
     std::string dst_filename;
diff --git a/src/table_split.cc b/src/table_split.cc
index 7ae3989..d9e8bdc 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -77,6 +77,8 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     // Lock victim table only, all the others will be newly created.
     TableLockHolder tl_holder(this, {victim_table->number});
     if (!tl_holder.ownsLock()) return Status::OPERATION_IN_PROGRESS;
+    // WARNING: It may have been compacted and removed before being locked.
+    if (victim_table->isRemoved()) return Status::TABLE_NOT_FOUND;
 
     _log_info( myLog, "split table %zu_%zu, level %zu, min key %s begins",
                opt.prefixNum, victim_table->number, level,
@@ -450,6 +452,10 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
 
     TableLockHolder tl_gt_holder(this, {num_gt});
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: They may have been compacted and removed before being locked.
+    if (local_victim->isRemoved() || target_table->isRemoved()) {
+        throw Status(Status::TABLE_NOT_FOUND);
+    }
 
     // Read all records from the victim table.
     itr = new TableFile::Iterator();
@@ -600,6 +606,10 @@ Status TableMgr::fixTable(const CompactOptions& options,
 
     TableLockHolder tl_gt_holder( this, {num_gt} );
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: They may have been compacted and removed before being locked.
+    if (local_victim->isRemoved() || target_table->isRemoved()) {
+        throw Status(Status::TABLE_NOT_FOUND);
+    }
 
     // Read records in target table, starting from min-key of victim table.
     itr = new TableFile::Iterator();
-- 
2.43.0


From 5998368c36460f76db453c94888fc39e6ed34e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 45/51] fix: a stack of function names that filled the buffer
 of the latency collector overran it by a byte

---
 src/latency_collector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/latency_collector.h b/src/latency_collector.h
index 5759ea3..8ed702f 100644
--- a/src/latency_collector.h
+++ b/src/latency_collector.h
@@ -407,7 +407,8 @@ struct ThreadTrackerItem {
 
     void pushStackName(const std::string& cur_stack_name) {
         size_t cur_stack_name_len = cur_stack_name.size();
-        while (lenName + 4 + cur_stack_name_len > aggrStackNameRaw.size()) {
+        // NOTE: Including the null character at the end.
+        while (lenName + 4 + cur_stack_name_len + 1 > aggrStackNameRaw.size()) {
             // Double the string buffer.
             aggrStackNameRaw.resize(aggrStackNameRaw.size() * 2);
         }
-- 
2.43.0


From 6283e7a21daec3e4f107fb504b6d3470a1b0f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 46/51] fix: idle time compaction went on for an hour after its
 end if its hours span midnight

---
 src/db_mgr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mgr.cc b/src/db_mgr.cc
index a9b87b8..5cf9c8f 100644
--- a/src/db_mgr.cc
+++ b/src/db_mgr.cc
@@ -497,7 +497,7 @@ bool DBMgr::determineIdleStatus() {
         // e.g.) 23 - 01: from 23:00:00 to 23:59:59 and
         //                     00:00:00 to 00:59:59.
         SimpleLoggerMgr::TimeInfo lt = std::chrono::system_clock::now();
-        if ( lt.hour > (int)gConfig.itcOpt.endHour &&
+        if ( lt.hour >= (int)gConfig.itcOpt.endHour &&
              lt.hour < (int)gConfig.itcOpt.startHour ) return false;
     }
 
-- 
2.43.0


From 06414a0c67f7e8911c01cdccf0df2b1c290e20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 47/51] fix: a sync after a failed one appended to an
 incomplete record, what it wrote was lost by reopening

---
 src/log_file.cc | 14 ++++++++++++++
 src/log_file.h  |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index 378b394..2b5ffdf 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -33,6 +33,7 @@ LogFile::LogFile(LogMgr* log_mgr)
     , mTable(nullptr)
     , immutable(false)
     , coldChk(false)
+    , failedWriteOffset(NOT_INITIALIZED)
     , integrity(IntegrityTypes::UNKNOWN)
     , memtablePurged(false)
     , logMgr(log_mgr)
@@ -453,6 +454,12 @@ Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
     return Status();
 
 #else
+    if (valid_number(failedWriteOffset)) {
+        // The previous write failed in the middle, discard what it left.
+        TC( fOps->ftruncate(fHandle, failedWriteOffset) );
+        failedWriteOffset = NOT_INITIALIZED;
+    }
+
     // Writing into pre-exist file needs to check integrity
     if (IntegrityTypes::UNKNOWN == integrity) {
         std::string message;
@@ -517,12 +524,19 @@ Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
         return Status();
     }
 
+    if (!logMgr->getDbConfig()->directIoOpt.enabled) {
+        // NOTE: In direct I/O mode, data that is not written yet
+        //       stays in the buffer of the file handle.
+        failedWriteOffset = fOps->eof(fHandle);
+    }
+
     RwSerializer rws(fOps, fHandle, true);
 
     TC( mTable->flush(rws, upto, flushed_seq_out) );
     TC( mTable->appendFlushMarker(rws) );
 
     TC( fOps->flush(fHandle) );
+    failedWriteOffset = NOT_INITIALIZED;
 
     fileSize = fOps->eof(fHandle);
     if (okToCloseFHandle()) {
diff --git a/src/log_file.h b/src/log_file.h
index a2df40e..da90c42 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -231,6 +231,11 @@ private:
     // If true, a new checkpoint is added after immutable
     bool coldChk;
 
+    // If the last write to this file failed, the file size before that write.
+    // What follows it may be incomplete, and should be cut off before
+    // the next write. Otherwise, `NOT_INITIALIZED`.
+    uint64_t failedWriteOffset;
+
     // If file is corrupted, new writes are forbidden.
     IntegrityTypes integrity;
 
-- 
2.43.0


From a2e1a55840ca12143aab7011893be67c8fc08e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 48/51] fix: an L0 compaction crashed when it could not create
 a table file

---
 src/table_compaction.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index fb33e3f..8e81a13 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -886,8 +886,8 @@ Status TableMgr::compactL0(const CompactOptions& options,
                         TableFile::getBfSizeByLevel(db_config, 0);
                 }
             }
-            createNewTableFile(0, new_normal_file, t_opt);
-            EP( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
+            TC( createNewTableFile(0, new_normal_file, t_opt) );
+            TC( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
             new_normal_table_num = new_normal_file->getNumber();
         }
 
-- 
2.43.0


From 908ceab4c41981e414654b0bf0c3319fd65cbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:08 +0000
Subject: [PATCH 49/51] fix: a failed write while storing the table manifest
 left inconsistent contents under a valid checksum

---
 src/table_manifest.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index fc6ed70..c63d32f 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -287,7 +287,11 @@ Status TableManifest::store(bool call_fsync) {
 
     Status s;
 
-    RwSerializer ss(fOps, mFile);
+    // Build the whole contents in memory first, so that they do not depend on
+    // what is in the file if writing a part of it fails.
+    SizedBuf mani_buf(4096);
+    SizedBuf::Holder h_mani_buf(mani_buf);
+    RwSerializer ss(&mani_buf);
 
     //   << Table manifest file format >>
     // Latest table file number,        8 bytes
@@ -375,19 +379,13 @@ Status TableManifest::store(bool call_fsync) {
     ss.putU32(TABMANI_VERSION);
 
     // CRC32
-    size_t ctx_size = ss.pos();
-
-    // Read whole file.
-    RwSerializer ss_read(fOps, mFile);
-    SizedBuf temp_buf(ctx_size);
-    SizedBuf::Holder h_temp_buf(temp_buf);
-    ss_read.get(temp_buf.data, temp_buf.size);
-    uint32_t crc_val = crc32_8(temp_buf.data, temp_buf.size, 0);
-
+    uint32_t crc_val = crc32_8(mani_buf.data, ss.pos(), 0);
     ss.putU32(crc_val);
 
+    EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
+
     // Should truncate tail.
-    fOps->ftruncate(mFile, ss.pos());
+    EP( fOps->ftruncate(mFile, ss.pos()) );
 
     if (call_fsync) {
         s = fOps->fsync(mFile);
-- 
2.43.0


From c61c4ba7b155b12c210ec3391fccc5e38b959016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:08 +0000
Subject: [PATCH 50/51] fix: a failed backup of the table manifest and then a
 failed write of it left both of them broken

---
 src/table_manifest.cc | 10 ++++++++++
 src/table_manifest.h  |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index c63d32f..03c3236 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -382,6 +382,14 @@ Status TableManifest::store(bool call_fsync) {
     uint32_t crc_val = crc32_8(mani_buf.data, ss.pos(), 0);
     ss.putU32(crc_val);
 
+    if (backupRequired) {
+        // The last backup failed, the backup file may be broken. The manifest
+        // file is valid, so make a backup of it first: otherwise both of them
+        // will be broken if the write below fails.
+        EP( BackupRestore::backup(fOps, mFileName, call_fsync) );
+        backupRequired = false;
+    }
+
     EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
 
     // Should truncate tail.
@@ -394,7 +402,9 @@ Status TableManifest::store(bool call_fsync) {
 
             // After success, make a backup file one more time,
             // using the latest data.
+            backupRequired = true;
             EP( BackupRestore::backup(fOps, mFileName, call_fsync) );
+            backupRequired = false;
         }
     }
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index e248bb6..27d9645 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -294,6 +294,9 @@ private:
      */
     std::mutex mFileWriteLock;
 
+    // Flag indicating whether or not the last backup failed.
+    bool backupRequired{false};
+
     /**
      * Logger.
      */
-- 
2.43.0


From af614e7ae7826b65670d63e432479d7a9c820086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:08 +0000
Subject: [PATCH 51/51] fix: compaction removed table files although the
 manifest that drops them could not be stored

---
 src/table_file.cc     | 8 ++++++++
 src/table_manifest.cc | 1 +
 src/table_manifest.h  | 8 ++++++++
 src/table_mgr.cc      | 4 ++++
 src/table_mgr.h       | 2 ++
 5 files changed, 23 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index b5179eb..3e1aca3 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1633,6 +1633,14 @@ Status TableFile::getCheckpointSeqnum(uint64_t chk, uint64_t& seqnum_out) {
 }
 
 Status TableFile::destroySelf() {
+    if (tableMgr && tableMgr->isManifestStoreFailed()) {
+        // The manifest file may still refer to this file. Leave it there,
+        // it will be removed by the next DB open once it is not in use.
+        _log_warn(myLog, "manifest is not stored, keep table file %s",
+                  filename.c_str());
+        return Status::OK;
+    }
+
     if (fOps->exist(filename.c_str())) {
         // Instead removing it immediately,
         // put it into remove list.
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 03c3236..13f2500 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -286,6 +286,7 @@ Status TableManifest::store(bool call_fsync) {
     std::unique_lock<std::mutex> lg(mFileWriteLock);
 
     Status s;
+    GcFunc set_result( [&]() { storeFailed = !s.ok(); } );
 
     // Build the whole contents in memory first, so that they do not depend on
     // what is in the file if writing a part of it fails.
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 27d9645..c899e01 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -25,6 +25,7 @@ limitations under the License.
 
 #include _MACRO_TO_STR(LOGGER_H)
 
+#include <atomic>
 #include <cassert>
 #include <list>
 #include <set>
@@ -181,6 +182,10 @@ public:
                 const std::string& filename);
     Status clone(const std::string& dst_path);
     Status store(bool call_fsync);
+
+    // `true` if the last attempt to store the manifest failed, i.e., the file
+    // may still contain tables that are already removed from memory.
+    bool isStoreFailed() const { return storeFailed; }
     Status storeTableStack(RwSerializer& ss, TableInfo* base_table);
 
     Status extendLevel();
@@ -294,6 +299,9 @@ private:
      */
     std::mutex mFileWriteLock;
 
+    // Flag indicating whether or not the last `store()` failed.
+    std::atomic<bool> storeFailed{false};
+
     // Flag indicating whether or not the last backup failed.
     bool backupRequired{false};
 
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index f3da08d..5176cf8 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -164,6 +164,10 @@ void TableMgr::logTableSettings(const DBConfig* db_config) {
               PrimeNumber::getUpper(db_config->numExpectedUserThreads));
 }
 
+bool TableMgr::isManifestStoreFailed() const {
+    return mani && mani->isStoreFailed();
+}
+
 std::string TableMgr::getManifestFilename() const {
     char m_filename[256];
     sprintf(m_filename, "table%04" PRIu64 "_manifest", opt.prefixNum);
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e76203e..fa17684 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -157,6 +157,8 @@ public:
 
     std::string getManifestFilename() const;
 
+    bool isManifestStoreFailed() const;
+
     Status init(const TableMgrOptions& _options);
 
     Status createL0Partitions();
-- 
2.43.0

