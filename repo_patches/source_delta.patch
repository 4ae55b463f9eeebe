From ecdeb428099d263529dbb324ea516f3060ce53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 01/17] fix: deserialised filter owns its partition buffers

The loaded partitions pointed into the caller's buffer, which the destructor and
resizes then passed to delete[].
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..ca67dcf 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1424,9 +1424,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = new uint64_t[word_count];
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 22cf83661ddd0338874452ebd8b4086e6517a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 02/17] fix: restore the load factors when deserialising

The loaded filter always used the default load factor, so a filter built with
another one was read back with the wrong partition geometry.
---
 include/diva.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ca67dcf..faf8a8e 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -233,8 +233,8 @@ private:
     wormref_int *better_tree_int_;
     std::mt19937 rng_;
     uint32_t rng_seed_;
-    const float load_factor_ = 0.95;
-    const float load_factor_alt_ = 0.95;
+    float load_factor_ = 0.95;
+    float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
 
@@ -1360,7 +1360,6 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     uint32_t res = 0;
     uint32_t buf32;
-    float buf_float;
 
     // Diva Version
     assert(static_cast<bool>(deser_buf[res]) == int_optimized && "Mismatched Diva version");
@@ -1391,12 +1390,10 @@ inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     assert(buf32 == size_scalar_shrink_grow_sep && "Mismatched Diva version");
     res += sizeof(size_scalar_shrink_grow_sep);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_));
-    assert(buf_float == load_factor_ && "Mismatched Diva version");
+    memcpy(&load_factor_, deser_buf + res, sizeof(load_factor_));
     res += sizeof(load_factor_);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_alt_));
-    assert(buf_float == load_factor_alt_ && "Mismatched Diva version");
+    memcpy(&load_factor_alt_, deser_buf + res, sizeof(load_factor_alt_));
     res += sizeof(load_factor_alt_);
 
     // Infix Size and Random Seed
-- 
2.43.0


From b245b33a1f8805eb4b71349be43362a187df17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:33 +0000
Subject: [PATCH 03/17] fix: shrinking infixes keeps the partition's own size
 grade and run ends

Slots were written at the offsets of the default grade, out of bounds for other
grades, and the last byte of the run-end bitmap was cleared when the bitmaps end
on a byte boundary.
---
 include/diva.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index faf8a8e..84fc6db 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2683,13 +2683,14 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8 != 0)
+        new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From cb79c1fa3c74f15507eb747ad3b01caa439cd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 04/17] fix: inserting an existing boundary key again does not
 split it (endless loop)

---
 include/diva.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 84fc6db..17f55de 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -808,6 +808,11 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         InsertSimple(key);
         return;
     }
+    if (prev_key == key) {
+        // The key is a boundary already, so there is nothing to split.
+        InsertSimple(key);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(prev_key, next_key);
     uint64_t extraction = ExtractPartialKey(key, shared, ignore, implicit_size, key.GetBit(shared));
-- 
2.43.0


From 06c7e75a8e0901ee802b2846539610f078b69f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 05/17] fix: bulk loading a key count of 1 modulo the partition
 size terminates

---
 include/diva.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 17f55de..3b8ecd1 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1788,6 +1788,10 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     else
         right_key = {reinterpret_cast<const uint8_t *>(&(*key_it)), key_len};
     const bool add_last_key = key_it != last_key_it;
+    if (!add_last_key) {    // The last key is a boundary with no key after it.
+        AddTreeKey(left_key.str, left_key.length);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1876,6 +1880,13 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     right_key = {reinterpret_cast<const uint8_t *>(sv.data()), 
                  static_cast<uint32_t>(sv.size())};
     const bool add_last_key = key_it != last_key_it;
+    if (!add_last_key) {    // The last key is a boundary with no key after it.
+        AddTreeKey(left_key.str, left_key.length);
+        uint8_t max_str[max_len];
+        memset(max_str, 0xFF, max_len);
+        AddTreeKey(max_str, max_len);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
-- 
2.43.0


From ea5656ff760f9f7d03deec8396055d49cbe25608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 06/17] fix: finishing a streaming load keeps a trailing
 boundary key

---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 3b8ecd1..0f556fd 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2008,6 +2008,8 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else if (bulk_load_left_key_.str != nullptr)
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From ea945a60e7f69db6298bc98cc1dd43ca69ecce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 07/17] fix: a sentinel boundary does not replace the partition
 of an equal key

---
 include/diva.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 0f556fd..267d8b2 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -730,6 +730,15 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t key_len) {
+    // Never replace the partition of a key that is a boundary already.
+    if constexpr (int_optimized) {
+        if (wh_int_probe(better_tree_int_, key, key_len))
+            return;
+    }
+    else {
+        if (wh_probe(better_tree_, key, key_len))
+            return;
+    }
     InfixStore infix_store(scaled_sizes_[size_scalar_shrink_grow_sep], infix_size_);
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, key, key_len, &infix_store, sizeof(infix_store));
-- 
2.43.0


From e20dfc25c1579f85e140f4761ce7bf8a8ee35131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 08/17] fix: finishing a streaming load frees its sentinel
 buffer

---
 include/diva.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 267d8b2..832697c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1991,6 +1991,7 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
 
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
-- 
2.43.0


From 30961aec82b9db5ba01cf8d478610a6369865854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:23 +0000
Subject: [PATCH 09/17] fix: sentinel boundaries are added after the loaded
 keys (leaked buffer)

---
 include/diva.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 832697c..a6117a8 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -359,13 +359,13 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoadFixedLength(begin, end, key_len);
+
     uint8_t key[key_len];
     memset(key, 0x00, key_len);
     AddTreeKey(key, key_len);
     memset(key, 0xFF, key_len);
     AddTreeKey(key, key_len);
-
-    BulkLoadFixedLength(begin, end, key_len);
 }
 
 
@@ -393,11 +393,11 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoad(begin, end);
+
     uint8_t key[8];
     memset(key, 0x00, 8);
     AddTreeKey(key, 8);
-
-    BulkLoad(begin, end);
 }
 
 
@@ -1986,13 +1986,6 @@ inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uin
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
-    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
-    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    delete[] key_copy;
-
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
                                                 bulk_load_key_list_[bulk_load_streaming_ind_ - 1].length};
@@ -2021,6 +2014,13 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     else if (bulk_load_left_key_.str != nullptr)
         AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
+    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
+    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
+
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
     bulk_load_left_key_ = {};
-- 
2.43.0


From 903a3cd5dcd83df56aa37257a1c1aff9e4fbe5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:23 +0000
Subject: [PATCH 10/17] fix: every constructor initialises the streaming length
 and the index handles

---
 include/diva.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index a6117a8..e26b6b6 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -227,10 +227,10 @@ private:
     };
 
     uint32_t infix_size_;
-    wormhole *wh_;
-    wormref *better_tree_;
-    wormhole_int *wh_int_;
-    wormref_int *better_tree_int_;
+    wormhole *wh_ = nullptr;
+    wormref *better_tree_ = nullptr;
+    wormhole_int *wh_int_ = nullptr;
+    wormref_int *better_tree_int_ = nullptr;
     std::mt19937 rng_;
     uint32_t rng_seed_;
     float load_factor_ = 0.95;
@@ -238,7 +238,7 @@ private:
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
 
-    uint32_t bulk_load_streaming_ind_, bulk_load_streaming_max_len_;
+    uint32_t bulk_load_streaming_ind_ = 0, bulk_load_streaming_max_len_ = 0;
     InfiniteByteString bulk_load_left_key_, bulk_load_key_list_[infix_store_target_size];
 
     void AddTreeKey(const uint8_t *key, const uint32_t key_len);
-- 
2.43.0


From c543fe8eac128802988a9c838d5b4c7f6f28c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:23 +0000
Subject: [PATCH 11/17] fix: the destructor releases its index reference and
 unfinished streaming keys

---
 include/diva.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index e26b6b6..a0553ce 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1350,6 +1350,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it_int.leaf)
             wormleaf_int_unlock_read(it_int.leaf);
+        wh_int_unref(better_tree_int_);
         wh_int_destroy(wh_int_);
     }
     else {
@@ -1365,8 +1366,14 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it.leaf)
             wormleaf_unlock_read(it.leaf);
+        wh_unref(better_tree_);
         wh_destroy(wh_);
     }
+
+    // Keys of a streaming bulk load that was not finished
+    delete[] bulk_load_left_key_.str;
+    for (int32_t i = 0; i < infix_store_target_size; i++)
+        delete[] bulk_load_key_list_[i].str;
 }
 
 
-- 
2.43.0


From 7a1214ec590aaf0b8ad09d5972076077974a1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:23 +0000
Subject: [PATCH 12/17] fix: slot accesses stay inside the partition buffer

---
 include/diva.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index a0553ce..11cb2e9 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -180,7 +180,9 @@ private:
         }
 
         static uint32_t GetPtrWordCount(const uint32_t slot_count, const uint32_t slot_size) {
-            return 1 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
+            // One extra word: a slot is accessed through an eight-byte window that
+        // may extend past the end of the last slot.
+        return 2 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
         }
 
         uint32_t GetElemCount() const {
-- 
2.43.0


From 3e359f71b5a09ad10c45bc0edaa9712ade98e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:50 +0000
Subject: [PATCH 13/17] fix: index leaves are aligned as their packed addresses
 require

A leaf's address is kept in a metadata word without its low six bits. With 32
keys per leaf the leaf is 352 bytes long, so most leaves were not 64-byte
aligned: merging two leaves left references to the freed one, and lookups
after enough deletions hung or crashed.
---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..113072c 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -62,7 +62,7 @@ struct wormleaf {
 
   struct entry13 hs[WH_KPN]; // sorted by hashes
   u8 ss[WH_KPN]; // sorted by keys
-};
+} __attribute__((aligned(64))); // wormmeta_lmost_load() drops the low six bits of a leaf's address
 
 struct wormslot { u16 t[WH_BKT_NR]; };
 static_assert(sizeof(struct wormslot) == 16, "sizeof(wormslot) != 16");
-- 
2.43.0


From 958b7514f006884d9d317f1740e46033f13a02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:30 +0000
Subject: [PATCH 14/17] fix: merging two leaves of the integer index counts
 sorted keys once

wormleaf_int_insert_isp() already advances nr_sorted, so adding the second
leaf's count again made nr_sorted exceed nr_keys and the next sort ran over
the end of the leaf.
---
 include/wormhole/wh_int.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..72e9513 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1861,12 +1861,10 @@ wormhole_split_leaf(struct wormhole_int * const map, struct wormleaf_int * const
 wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const leaf2)
 {
   debug_assert((leaf1->nr_keys + leaf2->nr_keys) <= WH_KPN);
-  const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
 
+  // the insertions keep nr_sorted up to date
   for (u32 i = 0; i < leaf2->nr_keys; i++)
     wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
-  if (leaf1_sorted)
-    leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
 }
 
-- 
2.43.0


From 859997a969c1c3a9387d472fdc21f818de22a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 15/17] fix: Size of an integer filter counts shortened
 boundary keys as serialised

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 11cb2e9..1898f60 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1134,7 +1134,8 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            const uint32_t rounded_tree_key_len = ((tree_key_len + 7) / 8) * 8;
+            res += sizeof(rounded_tree_key_len) + rounded_tree_key_len;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From aab2d693ae404f3c249ee6a2c6abea749a817d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 16/17] fix: unsafe split does not unlock a lock it never took

whunsafe_split_meta() unlocked the meta lock when reserving slab memory
failed, although the thread-unsafe API never locks it.
---
 include/wormhole/wh.c     | 1 -
 include/wormhole/wh_int.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 113072c..a0d2cdf 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -2411,7 +2411,6 @@ whunsafe_split_meta(struct wormhole * const map, struct wormleaf * const leaf2)
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 72e9513..747c610 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2181,7 +2181,6 @@ whunsafe_split_meta(struct wormhole_int * const map, struct wormleaf_int * const
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
-- 
2.43.0


From 9ed9aaf8689ec6a92072af6713256f61b075784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 17/17] fix: point operations of the integer index see keys
 that are not yet in order

---
 include/wormhole/wh_int.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 747c610..1e59ce1 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1897,10 +1897,14 @@ wormleaf_split_undo(struct wormhole_int * const map, struct wormleaf_int * const
 // }}} leaf-merge
 
 // get/probe {{{
+  static void
+wormhole_int_iter_leaf_sync_sorted(struct wormleaf_int * const leaf);
+
   struct kv *
 wormhole_int_get(struct wormref_int * const ref, const struct kref * const key, struct kv * const out)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   const u32 i = wormleaf_int_search_eq(leaf, key);
   if (i >= WH_KPN) {
       wormleaf_int_unlock_read(leaf);
@@ -1930,6 +1934,7 @@ whsafe_int_get(struct wormref_int * const ref, const struct kref * const key, st
 whunsafe_int_get(struct wormhole_int * const map, const struct kref * const key, struct kv * const out)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf(map->hmap, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   const u32 i = wormleaf_int_search_eq(leaf, key);
   if (i >= WH_KPN)
       return NULL;
@@ -1947,6 +1952,7 @@ whunsafe_int_get(struct wormhole_int * const map, const struct kref * const key,
 wormhole_int_probe(struct wormref_int * const ref, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   const u32 i = wormleaf_int_search_eq(leaf, key);
   wormleaf_int_unlock_read(leaf);
   return i < WH_KPN;
@@ -1965,6 +1971,7 @@ whsafe_int_probe(struct wormref_int * const ref, const struct kref * const key)
 whunsafe_int_probe(struct wormhole_int * const map, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf(map->hmap, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   return wormleaf_int_search_eq(leaf, key) < WH_KPN;
 }
 // }}} get/probe
@@ -2383,6 +2390,7 @@ wormhole_int_put(struct wormref_int * const ref, struct kv * const kv)
   const struct kref kref = kv_kref(kv);
 
   struct wormleaf_int * const leaf = wormhole_jump_leaf_write(ref, &kref);
+  wormleaf_int_sync_sorted(leaf);
   // update
   const u32 im = wormleaf_int_search_eq(leaf, &kref);
   if (im < WH_KPN) {
@@ -2421,6 +2429,7 @@ whunsafe_int_put(struct wormhole_int * const map, struct kv * const kv)
   const struct kref kref = kv_kref(kv);
 
   struct wormleaf_int * const leaf = wormhole_jump_leaf(map->hmap, &kref);
+  wormleaf_int_sync_sorted(leaf);
   // update
   const u32 im = wormleaf_int_search_eq(leaf, &kref);
   if (im < WH_KPN) { // overwrite
@@ -2483,6 +2492,7 @@ wormhole_del_try_merge(struct wormref_int * const ref, struct wormleaf_int * con
 wormhole_int_del(struct wormref_int * const ref, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_write(ref, key);
+  wormleaf_int_sync_sorted(leaf);
   const u32 im = wormleaf_int_search_eq(leaf, key);
   if (im < WH_KPN) { // found
     wormleaf_int_remove(leaf, im);
@@ -2522,6 +2532,7 @@ whunsafe_int_del_try_merge(struct wormhole_int * const map, struct wormleaf_int
 whunsafe_int_del(struct wormhole_int * const map, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf(map->hmap, key);
+  wormleaf_int_sync_sorted(leaf);
   const u32 im = wormleaf_int_search_eq(leaf, key);
   if (im < WH_KPN) { // found
     wormleaf_int_remove(leaf, im);
-- 
2.43.0

