From d38f2003d54ccd7e4a6c4ee2f7accda1810ba5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 01/20] fix: reversing a merge iterator must not return the
 current key again

When the current key is present in several inputs, the inputs holding the
other copies have already been moved past it. Stepping every input once when
the direction changes put them back on the current key, which was then
returned a second time with an incomplete value.
---
 src/merge.c | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..163ca1e 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -620,20 +620,50 @@ static platform_status
 merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
 {
    debug_assert(merge_itor->forwards != forwards);
-   platform_status rc;
-   merge_itor->forwards = forwards;
+   platform_status rc = STATUS_OK;
+
+   /*
+    * The iterators that held other copies of the current key have already been
+    * moved past it, so one step brings them back onto it. Remember the current
+    * key, by value because stepping may release its page, to step over it.
+    */
+   bool32 skip_curr_key =
+      merge_itor->merge_messages && !key_is_null(merge_itor->curr_key);
+   DECLARE_AUTO_KEY_BUFFER(curr_key_buffer, PROCESS_PRIVATE_HEAP_ID);
+   if (skip_curr_key) {
+      rc = key_buffer_copy_key(&curr_key_buffer, merge_itor->curr_key);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+   }
+   merge_itor->forwards  = forwards;
+   merge_itor->curr_key  = NULL_KEY;
+   merge_itor->curr_data = NULL_MESSAGE;
 
    // Step every iterator, both alive and dead, in the appropriate direction.
    for (int i = 0; i < merge_itor->num_trees; i++) {
-      if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
-      }
-      if (!forwards
-          && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
-      }
+      iterator *itor = merge_itor->ordered_iterators[i]->itor;
+      bool32    again;
+      do {
+         if (forwards && iterator_can_next(itor)) {
+            rc = iterator_next(itor);
+         } else if (!forwards && iterator_can_prev(itor)) {
+            rc = iterator_prev(itor);
+         }
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
+         again = FALSE;
+         if (skip_curr_key && iterator_can_curr(itor)) {
+            key     itor_key;
+            message itor_msg;
+            iterator_curr(itor, &itor_key, &itor_msg);
+            again = data_key_compare(merge_itor->cfg,
+                                     itor_key,
+                                     key_buffer_key(&curr_key_buffer))
+                    == 0;
+         }
+      } while (again);
    }
 
    // restore iterator invariants
-- 
2.43.0


From dcbac3d09ce3dfce59e05170e68eca5431e315fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 02/20] fix: b-tree iterator started between two leaves can go
 back

If the start position falls behind the last entry of its leaf the iterator
moves on to the next leaf. It then always assumed that the leaf it came from
lies entirely below min_key, so prev() stopped although there were more
entries in range.
---
 src/btree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..f59eb2a 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2858,8 +2858,13 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    if (itor->curr.addr != itor->end_addr
        && itor->idx == btree_num_entries(itor->curr.hdr))
    {
+      bool32 prev_leaf_irrelevant =
+         itor->curr_min_idx == btree_num_entries(itor->curr.hdr);
       btree_iterator_next_leaf(itor);
-      itor->curr_min_idx = 0; // we came from an irrelevant leaf
+      if (prev_leaf_irrelevant) {
+         // all of the leaf we came from is below min_key
+         itor->curr_min_idx = 0;
+      }
    }
    if (itor->curr_min_idx == -1 && itor->idx == -1) {
       btree_iterator_prev_leaf(itor);
-- 
2.43.0


From eb3b42de284abe11d28456c1aa2eb2411f65545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:49 +0000
Subject: [PATCH 03/20] fix: iterating backwards across a tree leaf starts at
 its largest key

When prev() moves on to the previous leaf, the new merge iterator was always
set up to go forwards and so started at the smallest of the inputs' last keys,
which skipped all keys between that one and the largest.
---
 src/merge.c | 31 +++++++++++++++++++++++--------
 src/merge.h |  9 +++++++++
 src/trunk.c | 14 ++++++++------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 163ca1e..3c30a42 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -507,8 +507,11 @@ setup_ordered_iterators(merge_iterator *merge_itor)
 /*
  *-----------------------------------------------------------------------------
  * merge_iterator_create --
+ * merge_iterator_create_directed --
  *
- *      Initialize a merge iterator for a forest of B-trees.
+ *      Initialize a merge iterator for a forest of B-trees. The iterator starts
+ *      at the smallest of the inputs' current keys, or at the largest one if
+ *      it is created to go backwards.
  *
  *      Prerequisite:
  *         All input iterators must be homogeneous for data_type
@@ -518,12 +521,13 @@ setup_ordered_iterators(merge_iterator *merge_itor)
  *-----------------------------------------------------------------------------
  */
 platform_status
-merge_iterator_create(platform_heap_id hid,
-                      data_config     *cfg,
-                      int              num_trees,
-                      iterator       **itor_arr,
-                      merge_behavior   merge_mode,
-                      merge_iterator **out_itor)
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor)
 {
    int             i;
    platform_status rc = STATUS_OK;
@@ -562,7 +566,7 @@ merge_iterator_create(platform_heap_id hid,
 
    merge_itor->cfg      = cfg;
    merge_itor->curr_key = NULL_KEY;
-   merge_itor->forwards = TRUE;
+   merge_itor->forwards = forwards;
 
    // index -1 initializes the pad variable
    for (i = -1; i < num_trees; i++) {
@@ -586,6 +590,17 @@ merge_iterator_create(platform_heap_id hid,
    return rc;
 }
 
+platform_status
+merge_iterator_create(platform_heap_id hid,
+                      data_config     *cfg,
+                      int              num_trees,
+                      iterator       **itor_arr,
+                      merge_behavior   merge_mode,
+                      merge_iterator **out_itor)
+{
+   return merge_iterator_create_directed(
+      hid, cfg, num_trees, itor_arr, merge_mode, TRUE, out_itor);
+}
 
 /*
  *-----------------------------------------------------------------------------
diff --git a/src/merge.h b/src/merge.h
index 0556e0f..4f494ba 100644
--- a/src/merge.h
+++ b/src/merge.h
@@ -101,6 +101,15 @@ merge_iterator_create(platform_heap_id hid,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor);
 
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor);
+
 platform_status
 merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor);
 
diff --git a/src/trunk.c b/src/trunk.c
index 8104068..55397a4 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6329,12 +6329,14 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc = merge_iterator_create(spl->heap_id,
-                                              spl->cfg.data_cfg,
-                                              range_itor->num_branches,
-                                              range_itor->itor,
-                                              MERGE_FULL,
-                                              &range_itor->merge_itor);
+   platform_status rc =
+      merge_iterator_create_directed(spl->heap_id,
+                                     spl->cfg.data_cfg,
+                                     range_itor->num_branches,
+                                     range_itor->itor,
+                                     MERGE_FULL,
+                                     start_type >= greater_than,
+                                     &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From 19c0a0399bc84c5ddedb43bf28110ead75e4ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 04/20] fix: b-tree iterators above the leaves honour their end
 key

find_key_in_node() ignored its target for iterators over index levels and
always searched for min_key, so such an iterator ended where it started.
trunk_split_leaf() then found no pivots and did not split the leaf, unless
the leaf was the rightmost one.
---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index f59eb2a..084cb63 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2559,7 +2559,7 @@ find_key_in_node(btree_iterator *itor,
       itor->height = (uint32)-1;
       return 0; // this iterator is invalid, so return 0 for all lookups
    } else {
-      tmp = btree_find_pivot(itor->cfg, hdr, itor->min_key, found);
+      tmp = btree_find_pivot(itor->cfg, hdr, target, found);
    }
 
    switch (position_rule) {
-- 
2.43.0


From 8ec200532e22f1d4bb91b44a7366f3134148a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 05/20] fix: a height-1 iterator over a single-page b-tree is
 empty

With an unbounded max_key the iterator claimed to have entries, so that
trunk_split_leaf() took the tuples of a single-page branch for pivots and
read beyond the end of the page.
---
 src/btree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 084cb63..6941e00 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2598,7 +2598,9 @@ btree_iterator_find_end(btree_iterator *itor)
    itor->end_addr       = end.addr;
    itor->end_generation = end.hdr->generation;
 
-   if (key_is_positive_infinity(itor->max_key)) {
+   if (key_is_positive_infinity(itor->max_key)
+       && itor->height <= btree_height(end.hdr))
+   {
       itor->end_idx = btree_num_entries(end.hdr);
    } else {
       itor->end_idx = find_key_in_node(
-- 
2.43.0


From e9f84936cdadde57cf7c78979a849e032ba4ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:57 +0000
Subject: [PATCH 06/20] fix: an empty compaction keeps later subbundles' filter
 ranges in step

When a bundle compacts to nothing, its filters are removed and later filters
are moved down, but the later subbundles kept pointing at the old positions,
so they lost a filter and used (and released) one that is not theirs.
---
 src/trunk.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 55397a4..7df9b64 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -2996,6 +2996,7 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    /*
     * if the bundle has no keys, move the filters to form a contiguous array
     */
+   uint16 filter_diff = 0;
    if (repl_branch == NULL) {
       // decrement the ref counts of the old filters
       for (uint16 filter_no = trunk_bundle_start_filter(spl, node, bundle);
@@ -3007,13 +3008,13 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
       }
 
       // move any later filters
-      uint16 filter_diff = trunk_bundle_filter_count(spl, node, bundle);
+      filter_diff = trunk_bundle_filter_count(spl, node, bundle);
       for (uint16 filter_no = trunk_bundle_end_filter(spl, node, bundle);
            filter_no != trunk_end_sb_filter(spl, node);
            filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
       {
          uint16 dst_filter_no =
-            trunk_subtract_subbundle_number(spl, filter_no, filter_diff);
+            trunk_subtract_subbundle_filter_number(spl, filter_no, filter_diff);
          *trunk_get_sb_filter(spl, node, dst_filter_no) =
             *trunk_get_sb_filter(spl, node, filter_no);
       }
@@ -3047,6 +3048,10 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
          trunk_subtract_branch_number(spl, sb->start_branch, branch_diff);
       sb->end_branch =
          trunk_subtract_branch_number(spl, sb->end_branch, branch_diff);
+      sb->start_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->start_filter, filter_diff);
+      sb->end_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->end_filter, filter_diff);
       uint16 dst_sb_no = trunk_subtract_subbundle_number(spl, sb_no, sb_diff);
       *trunk_get_subbundle(spl, node, dst_sb_no) = *sb;
    }
-- 
2.43.0


From 5a4ddcf548b67788d70d990821e3273bbdb327bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 07/20] fix: close with several buffers still waiting to be
 flushed

trunk_prepare_for_shutdown rotated the current memtable even when all the
others were still queued for flushing, and crashed on the assertion in
memtable_force_finalize.
---
 src/trunk.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 7df9b64..e4a6e6b 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7869,8 +7869,13 @@ trunk_mount(trunk_config     *cfg,
 void
 trunk_prepare_for_shutdown(trunk_handle *spl)
 {
+   // finish flushing the earlier memtables, so that the current one can be
+   // finalized even if all the others are still in use
+   platform_status rc = task_perform_until_quiescent(spl->ts);
+   platform_assert_status_ok(rc);
+
    // write current memtable to disk
-   // (any others must already be flushing/flushed)
+   // (all others are flushed now)
 
    if (!memtable_is_empty(spl->mt_ctxt)) {
       /*
@@ -7883,7 +7888,7 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    }
 
    // finish any outstanding tasks and destroy task system for this table.
-   platform_status rc = task_perform_until_quiescent(spl->ts);
+   rc = task_perform_until_quiescent(spl->ts);
    platform_assert_status_ok(rc);
 
    // destroy memtable context (and its memtables)
-- 
2.43.0


From 29e0c1132d4fbd51317f29df5bc4161971ad1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:20 +0000
Subject: [PATCH 08/20] fix: filters of a compaction that overlapped a flush

If a pivot of an internal node was flushed while a bundle of that node was
waiting for or undergoing compaction, its output tuples were not counted, and
the fingerprint ranges of all later pivots were off: their filters were built
from other pivots' keys, and lookups missed keys that were present.
---
 src/trunk.c | 57 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index e4a6e6b..ce011da 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -749,6 +749,7 @@ typedef struct {
    iterator              *itor_arr[TRUNK_RANGE_ITOR_MAX_BRANCHES];
    uint64                 num_saved_pivot_keys;
    key_buffer             saved_pivot_keys[TRUNK_MAX_PIVOTS];
+   uint64                 saved_pivot_generation[TRUNK_MAX_PIVOTS];
    key_buffer             req_original_start_key;
 } compact_bundle_scratch;
 
@@ -2956,13 +2957,11 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    uint16 num_children        = trunk_num_children(spl, node);
 
    // add new branch
-   uint16 new_branch_no = UINT16_MAX;
    if (repl_branch != NULL) {
       trunk_branch *new_branch =
          trunk_get_branch(spl, node, bundle_start_branch);
       *new_branch = *repl_branch;
       branch_diff--;
-      new_branch_no = trunk_branch_no(spl, node, new_branch);
 
       // increment the fringes of the new branch along the pivots
       uint16 num_pivot_keys = trunk_num_pivot_keys(spl, node);
@@ -3081,16 +3080,6 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
                          "pos=%lu != TRUNK_MAX_PIVOTS=%d",
                          pos,
                          TRUNK_MAX_PIVOTS);
-         if (repl_branch != NULL) {
-            trunk_pivot_branch_tuple_counts(
-               spl,
-               node,
-               pivot_no,
-               new_branch_no,
-               &req->output_pivot_tuple_count[pos],
-               &req->output_pivot_kv_byte_count[pos]);
-         }
-
          uint64 tuples_reclaimed = req->input_pivot_tuple_count[pos]
                                    - req->output_pivot_tuple_count[pos];
          req->tuples_reclaimed += tuples_reclaimed;
@@ -4842,10 +4831,44 @@ save_pivots_to_compact_bundle_scratch(trunk_handle           *spl,     // IN
       rc        = key_buffer_init_from_key(
          &scratch->saved_pivot_keys[i], spl->heap_id, pivot);
       platform_assert_status_ok(rc);
+      if (i + 1 < num_pivot_keys) {
+         scratch->saved_pivot_generation[i] =
+            trunk_get_pivot_data(spl, node, i)->generation;
+      }
    }
    scratch->num_saved_pivot_keys = num_pivot_keys;
 }
 
+/*
+ * Records in req how many tuples of the compacted branch belong to each pivot
+ * of the node the compaction started from.
+ */
+static void
+trunk_count_compact_bundle_output(trunk_handle             *spl,     // IN
+                                  trunk_compact_bundle_req *req,     // IN/OUT
+                                  compact_bundle_scratch   *scratch, // IN
+                                  trunk_branch             *branch)  // IN
+{
+   for (uint32 i = 0; i + 1 < scratch->num_saved_pivot_keys; i++) {
+      uint64 pos = trunk_process_generation_to_pos(
+         spl, req, scratch->saved_pivot_generation[i]);
+      if (pos == TRUNK_MAX_PIVOTS) {
+         // created by a split after its bundles were flushed
+         continue;
+      }
+      btree_pivot_stats stats;
+      btree_count_in_range(spl->cc,
+                           trunk_btree_config(spl),
+                           branch->root_addr,
+                           key_buffer_key(&scratch->saved_pivot_keys[i]),
+                           key_buffer_key(&scratch->saved_pivot_keys[i + 1]),
+                           &stats);
+      req->output_pivot_tuple_count[pos] = stats.num_kvs;
+      req->output_pivot_kv_byte_count[pos] =
+         stats.key_bytes + stats.message_bytes;
+   }
+}
+
 static void
 deinit_saved_pivots_in_scratch(compact_bundle_scratch *scratch)
 {
@@ -5329,6 +5352,16 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    trunk_compact_bundle_cleanup_iterators(
       spl, &merge_itor, num_branches, skip_itor_arr);
 
+   /*
+    * 10. Count the output tuples of each pivot which took part in the
+    *     compaction. This must cover the pivots which are flushed in the
+    *     meantime, since the counts also delimit the fingerprints of each pivot
+    *     in fp_arr.
+    */
+   if (num_tuples != 0) {
+      trunk_count_compact_bundle_output(spl, req, scratch, &new_branch);
+   }
+
    deinit_saved_pivots_in_scratch(scratch);
 
    rc = key_buffer_init_from_key(&scratch->req_original_start_key,
-- 
2.43.0


From cbda574702096afa61a5df73857323e1d025ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:48 +0000
Subject: [PATCH 09/20] fix: filters of a removed bundle are released after its
 readers have drained

---
 src/trunk.c | 62 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index ce011da..53504b9 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -802,6 +802,7 @@ static inline uint16               trunk_bundle_start_branch       (trunk_handle
 static inline uint16               trunk_start_bundle              (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_inc_start_bundle          (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_end_bundle                (trunk_handle *spl, trunk_node *node);
+static inline void                 trunk_bundle_dec_filters        (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_bundle_clear_subbundles   (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_add_subbundle_number      (trunk_handle *spl, uint16 start, uint16 end);
 static inline uint16               trunk_subtract_subbundle_number (trunk_handle *spl, uint16 start, uint16 end);
@@ -2086,6 +2087,7 @@ trunk_reset_start_branch(trunk_handle *spl, trunk_node *node)
           * either all branches in the bundle are live or none are, so in this
           * case none are
           */
+         trunk_bundle_dec_filters(spl, node, bundle);
          trunk_bundle_clear_subbundles(spl, node, bundle);
          trunk_inc_start_bundle(spl, node);
          trunk_default_log_if_enabled(
@@ -2409,10 +2411,16 @@ trunk_start_subbundle_for_lookup(trunk_handle *spl, trunk_node *node)
       spl, trunk_end_subbundle(spl, node), 1);
 }
 
-static inline uint16
-trunk_bundle_clear_subbundles(trunk_handle *spl,
-                              trunk_node   *node,
-                              trunk_bundle *bundle)
+/*
+ * Releases the filters of the bundle's subbundles.
+ *
+ * Lookups in node may still use them, so they must be drained first if node's
+ * bundle is not covered by another reference to the filters.
+ */
+static inline void
+trunk_bundle_dec_filters(trunk_handle *spl,
+                         trunk_node   *node,
+                         trunk_bundle *bundle)
 {
    uint16 start_filter = trunk_bundle_start_filter(spl, node, bundle);
    uint16 end_filter   = trunk_bundle_end_filter(spl, node, bundle);
@@ -2422,6 +2430,18 @@ trunk_bundle_clear_subbundles(trunk_handle *spl,
       routing_filter *filter = trunk_get_sb_filter(spl, node, filter_no);
       trunk_dec_filter(spl, filter);
    }
+}
+
+/*
+ * Removes the subbundles from the node. The references to their filters are
+ * not released, see trunk_bundle_dec_filters.
+ */
+static inline uint16
+trunk_bundle_clear_subbundles(trunk_handle *spl,
+                              trunk_node   *node,
+                              trunk_bundle *bundle)
+{
+   uint16 end_filter          = trunk_bundle_end_filter(spl, node, bundle);
    node->hdr->start_sb_filter = end_filter;
    node->hdr->start_subbundle = bundle->end_subbundle;
    return node->hdr->start_subbundle;
@@ -2885,12 +2905,14 @@ trunk_garbage_collect_node_get(trunk_handle             *spl,
 }
 
 /*
- * garbage_collect_bundle dereferences the branches for the specified bundle
+ * garbage_collect_bundle dereferences the branches for the specified bundle,
+ * and its filters if the compaction was empty and so removed them as well.
  */
 static inline void
 trunk_garbage_collect_bundle(trunk_handle             *spl,
                              uint64                    old_root_addr,
-                             trunk_compact_bundle_req *req)
+                             trunk_compact_bundle_req *req,
+                             bool32                    is_empty)
 {
    trunk_node node;
    trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
@@ -2924,6 +2946,10 @@ trunk_garbage_collect_bundle(trunk_handle             *spl,
       }
    }
 
+   if (is_empty && trunk_bundle_live(spl, &node, bundle_no)) {
+      trunk_bundle_dec_filters(spl, &node, bundle);
+   }
+
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -2997,16 +3023,12 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
     */
    uint16 filter_diff = 0;
    if (repl_branch == NULL) {
-      // decrement the ref counts of the old filters
-      for (uint16 filter_no = trunk_bundle_start_filter(spl, node, bundle);
-           filter_no != trunk_bundle_end_filter(spl, node, bundle);
-           filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
-      {
-         routing_filter *old_filter = trunk_get_sb_filter(spl, node, filter_no);
-         trunk_dec_filter(spl, old_filter);
-      }
-
-      // move any later filters
+      /*
+       * The old filters are released by trunk_garbage_collect_bundle, after
+       * the lookups in the old node have drained.
+       *
+       * move any later filters
+       */
       filter_diff = trunk_bundle_filter_count(spl, node, bundle);
       for (uint16 filter_no = trunk_bundle_end_filter(spl, node, bundle);
            filter_no != trunk_end_sb_filter(spl, node);
@@ -4223,6 +4245,12 @@ trunk_garbage_collect_filters(trunk_handle             *spl,
       debug_assert(pdata->generation < req->max_pivot_generation);
       trunk_dec_filter(spl, &pdata->filter);
    }
+
+   // the filters of the bundle itself, which was removed from the new node
+   if (trunk_bundle_live(spl, &node, req->bundle_no)) {
+      trunk_bundle_dec_filters(
+         spl, &node, trunk_get_bundle(spl, &node, req->bundle_no));
+   }
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -5459,7 +5487,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       debug_assert(trunk_verify_node(spl, &node));
 
       // garbage collect the old path and bundle
-      trunk_garbage_collect_bundle(spl, old_root_addr, req);
+      trunk_garbage_collect_bundle(spl, old_root_addr, req, num_tuples == 0);
 
       if (should_continue) {
          debug_assert(height != 0);
-- 
2.43.0


From 22ec0578408eccc6b41460fa172268192ac133f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:16 +0000
Subject: [PATCH 10/20] fix: building a filter for a split leaf gave up a root
 claim it does not hold

---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 53504b9..c75f230 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4332,7 +4332,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
                spl, &stream, "replace_filter abort leaf split\n");
-            trunk_root_full_unclaim(spl);
             trunk_node_unlock(spl->cc, &node);
             trunk_node_unclaim(spl->cc, &node);
             trunk_node_unget(spl->cc, &node);
-- 
2.43.0


From 545629157861d5e7189d57648c7bfa8206aafecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 11/20] fix: do not write back an unrelated page next to the
 one being cleaned

clockcache_batch_start_writeback extends a write to neighbouring pages of
the extent. Between looking a neighbour up and setting its writeback flag the
entry can be evicted and reused for another page; the flag then lands on that
page and the second lookup returns CC_UNMAPPED_ENTRY, so an arbitrary address
is written from. Check that the entry still holds the page after the flag has
been set.
---
 src/clockcache.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..8369b6e 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1246,6 +1246,32 @@ clockcache_try_set_writeback(clockcache *cc,
    return FALSE;
 }
 
+/*
+ *----------------------------------------------------------------------
+ * clockcache_try_set_writeback_addr
+ *
+ *      Like clockcache_try_set_writeback, but for an entry which was found by
+ *      looking up addr: fails if the entry has been evicted and reused for
+ *      another page since.
+ *----------------------------------------------------------------------
+ */
+static inline bool32
+clockcache_try_set_writeback_addr(clockcache *cc,
+                                  uint32      entry_number,
+                                  uint64      addr,
+                                  bool32      with_access)
+{
+   if (!clockcache_try_set_writeback(cc, entry_number, with_access)) {
+      return FALSE;
+   }
+   // Entries in writeback cannot be evicted, so disk_addr is stable now.
+   if (clockcache_get_entry(cc, entry_number)->page.disk_addr == addr) {
+      return TRUE;
+   }
+   clockcache_clear_flag(cc, entry_number, CC_WRITEBACK);
+   return FALSE;
+}
+
 
 /*
  *----------------------------------------------------------------------
@@ -1358,7 +1384,8 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_addr(
+               cc, next_entry_no, first_addr, is_urgent));
          first_addr += page_size;
          end_addr = entry->page.disk_addr;
          // walk forwards through extent to find last cleanable entry
@@ -1371,7 +1398,8 @@ clockcache_batch_start_writeback(clockcache *cc, uint64 batch, bool32 is_urgent)
                next_entry_no = CC_UNMAPPED_ENTRY;
          } while (
             next_entry_no != CC_UNMAPPED_ENTRY
-            && clockcache_try_set_writeback(cc, next_entry_no, is_urgent));
+            && clockcache_try_set_writeback_addr(
+               cc, next_entry_no, end_addr, is_urgent));
 
          io_async_req *req            = io_get_async_req(cc->io, TRUE);
          void         *req_metadata   = io_get_metadata(cc->io, req);
-- 
2.43.0


From ba4d3431c217004e469a4c5fa0a0d08d7b0fd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 12/20] fix: clockcache_page_sync tolerates a concurrent
 cleaner

Between releasing a page and syncing it, another thread looking for free
entries may start to write the page back (or clear its accessed flag while the
two compare-and-swaps of clockcache_try_set_writeback run); page_sync then hit
its assertion that the page is clean. Retry, wait for the other writeback when
blocking, and leave the page to the other writer otherwise.
---
 src/clockcache.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 8369b6e..cb0554e 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2729,9 +2729,16 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      uint32 status = clockcache_get_status(cc, entry_number);
+      if (status & CC_CLEAN) {
+         return;
+      }
+      // Another thread is already cleaning this page.
+      if ((status & CC_WRITEBACK) && !is_blocking) {
+         return;
+      }
+      clockcache_wait(cc);
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From 90a7e52127d40f405fea2c2a1100460e8be5f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 13/20] fix: mark a log page dirty when another entry is added
 to it

A log page that was already written back by the cleaner stayed clean when
further entries were added, so neither these entries nor the checksum of
the finished page reached the device.
---
 src/shard_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..a37e016 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -236,6 +236,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
          wait = wait > 1024 ? wait : 2 * wait;
       }
       cache_lock(cc, page);
+      cache_mark_dirty(cc, page);
    }
 
    shard_log_hdr *hdr    = (shard_log_hdr *)page->data;
-- 
2.43.0


From cae3a8d353a820dec0858752b58c0c963e32d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 14/20] fix: order log entries by their full 64-bit generation

The difference of two generations was truncated to int, so entries whose
generations lie far apart came back in the wrong order.
---
 src/shard_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index a37e016..b2172ea 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -321,7 +321,10 @@ shard_log_compare(const void *p1, const void *p2, void *unused)
 {
    log_entry **le1 = (log_entry **)p1;
    log_entry **le2 = (log_entry **)p2;
-   return (*le1)->generation - (*le2)->generation;
+   if ((*le1)->generation == (*le2)->generation) {
+      return 0;
+   }
+   return (*le1)->generation < (*le2)->generation ? -1 : 1;
 }
 
 log_handle *
-- 
2.43.0


From f7f5b58df56dbf28c4fd68c864cd7a4a996f9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 15/20] fix: btree_pack takes the last key from its output

The key it passed to mini_release pointed into a page of the source
iterator, which the exhausted iterator need not hold any more: if the page
is evicted meanwhile, the end key of the last extents is garbage.
---
 src/btree.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 6941e00..50459be 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3200,7 +3200,7 @@ btree_pack_loop(btree_pack_req *req,       // IN/OUT
 
 
 static inline void
-btree_pack_post_loop(btree_pack_req *req, key last_key)
+btree_pack_post_loop(btree_pack_req *req)
 {
    cache        *cc  = req->cc;
    btree_config *cfg = req->cfg;
@@ -3215,6 +3215,15 @@ btree_pack_post_loop(btree_pack_req *req, key last_key)
       return;
    }
 
+   // Copy the last key from the output tree before its leaf is released.  The
+   // source iterator is exhausted and need not hold the page of its last key.
+   char        last_key_buffer[MAX_INLINE_KEY_SIZE(MAX_PAGE_SIZE)];
+   btree_node *last_leaf = btree_pack_get_current_node(req, 0);
+   key         last_key  = btree_get_tuple_key(
+      cfg, last_leaf->hdr, btree_num_entries(last_leaf->hdr) - 1);
+   key_copy_contents(last_key_buffer, last_key);
+   last_key = key_create(key_length(last_key), last_key_buffer);
+
    int h = 0;
    while (h < req->height || 1 < req->num_edges[h]) {
       btree_pack_link_extent(req, h, 0);
@@ -3274,7 +3283,7 @@ btree_pack(btree_pack_req *req)
 {
    btree_pack_setup_start(req);
 
-   key     tuple_key = NEGATIVE_INFINITY_KEY;
+   key     tuple_key;
    message data;
 
    while (iterator_can_next(req->itor)) {
@@ -3302,7 +3311,7 @@ btree_pack(btree_pack_req *req)
       }
    }
 
-   btree_pack_post_loop(req, tuple_key);
+   btree_pack_post_loop(req);
    platform_assert(IMPLIES(req->num_tuples == 0, req->root_addr == 0));
    return STATUS_OK;
 }
-- 
2.43.0


From 37b9acaa74745745f2568eb2537b0e797cf3341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 16/20] fix: trunk_range_iterator_init keeps a copy of the leaf
 bounds

When the leaf has no entries in range, the bound it goes on from pointed
into the leaf's page, which had already been released.
---
 src/trunk.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index c75f230..c69be01 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6413,13 +6413,21 @@ trunk_range_iterator_init(trunk_handle         *spl,
     * db/range, move to prev/next leaf
     */
    if (!in_range && start_type >= greater_than) {
-      if (trunk_key_compare(spl, local_max, max_key) < 0) {
+      // local_max may point into the leaf, which has been released
+      KEY_CREATE_LOCAL_COPY(rc,
+                            local_max_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_max_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, local_max_key, max_key) < 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_max,
+                                        local_max_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
@@ -6432,13 +6440,21 @@ trunk_range_iterator_init(trunk_handle         *spl,
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
-      if (trunk_key_compare(spl, local_min, min_key) > 0) {
+      // local_min may point into the leaf, which has been released
+      KEY_CREATE_LOCAL_COPY(rc,
+                            local_min_key,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_min_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+      if (trunk_key_compare(spl, local_min_key, min_key) > 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_min,
+                                        local_min_key,
                                         start_type,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
-- 
2.43.0


From bb7f452d5b360249716957c8e7281371c0c5c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 17/20] fix: btree_count_in_range_by_iterator starts at the
 first key in range

It still passed TRUE where btree_iterator_init now takes a comparison, which
means less_than_or_equal: with no entry equal to min_key the entry below it
was counted as well.
---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 50459be..9316af1 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3390,7 +3390,7 @@ btree_count_in_range_by_iterator(cache             *cc,
                        min_key,
                        max_key,
                        min_key,
-                       TRUE,
+                       greater_than_or_equal,
                        TRUE,
                        0);
 
-- 
2.43.0


From f68c802a93fcd487edd24dfdf5eb014fef0b1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 18/20] fix: btree_pack_abort returns the extents preallocated
 for the output tree

---
 src/btree.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index 9316af1..21254fc 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3254,12 +3254,28 @@ btree_pack_can_fit_tuple(btree_pack_req *req, key tuple_key, message data)
 static void
 btree_pack_abort(btree_pack_req *req)
 {
+   // Nothing was packed: only preallocated extents and the root to give back
+   if (req->num_tuples == 0) {
+      mini_destroy_unused(&req->mini);
+      req->root_addr = 0;
+      return;
+   }
+
+   char        last_key_buffer[MAX_INLINE_KEY_SIZE(MAX_PAGE_SIZE)];
+   btree_node *last_leaf = btree_pack_get_current_node(req, 0);
+   key         last_key  = btree_get_tuple_key(
+      req->cfg, last_leaf->hdr, btree_num_entries(last_leaf->hdr) - 1);
+   key_copy_contents(last_key_buffer, last_key);
+   last_key = key_create(key_length(last_key), last_key_buffer);
+
    for (uint16 i = 0; i <= req->height; i++) {
       for (uint16 j = 0; j < req->num_edges[i]; j++) {
          btree_node_full_unlock(req->cc, req->cfg, &req->edge[i][j]);
       }
    }
 
+   // Give back the preallocated extents before dropping the output tree
+   mini_release(&req->mini, last_key);
    btree_dec_ref_range(req->cc,
                        req->cfg,
                        req->root_addr,
-- 
2.43.0


From fe5e407c20a40b70023c10e51fb70b1e80686ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 19/20] fix: merge iterator forgets which keys were equal
 before it re-sorts its inputs

---
 src/merge.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/merge.c b/src/merge.c
index 3c30a42..91d616a 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -425,6 +425,9 @@ setup_ordered_iterators(merge_iterator *merge_itor)
    merge_itor->num_remaining = merge_itor->num_trees;
    int i                     = 0;
    while (i < merge_itor->num_remaining) {
+      // left over from the order before, and not set below for the last one
+      merge_itor->ordered_iterators[i]->next_key_equal = FALSE;
+
       // determine if the merge itor can go prev/next based upon ordered_itors
       if (iterator_can_prev(merge_itor->ordered_iterators[i]->itor)) {
          merge_itor->can_prev = TRUE;
-- 
2.43.0


From 93d5c8652180499a70bc1bf6b46ea4308001bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 20/20] fix: merge iterator frees itself when re-sorting fails
 and is freed again by its owner

---
 src/merge.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 91d616a..030579c 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -484,17 +484,6 @@ setup_ordered_iterators(merge_iterator *merge_itor)
    }
 
    if (!SUCCESS(rc)) {
-      // destroy the iterator
-      platform_status merge_iterator_rc =
-         merge_iterator_destroy(platform_get_heap_id(), &merge_itor);
-      if (!SUCCESS(merge_iterator_rc)) {
-         platform_error_log(
-            "setup_ordered_iterators: exception while releasing\n");
-         if (SUCCESS(rc)) {
-            platform_error_log("setup_ordered_iterators: clobbering rc\n");
-            rc = merge_iterator_rc;
-         }
-      }
       platform_error_log("setup_ordered_iterators: exception: %s\n",
                          platform_status_to_string(rc));
       return rc;
@@ -586,6 +575,7 @@ merge_iterator_create_directed(platform_heap_id hid,
 
    rc = setup_ordered_iterators(merge_itor);
    if (!SUCCESS(rc)) {
+      merge_iterator_destroy(hid, &merge_itor);
       return rc;
    }
 
-- 
2.43.0

