From 1e7463926c3b893c483659bde0030783e8f0d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 01/59] fix: build the default engine with --enable-persistence
 when libc already defines offsetof

---
 engines/default/cmdlogrec.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 94f8a65..e226ca8 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -16,6 +16,7 @@
  * limitations under the License.
  */
 
+#include <stddef.h>
 #include <string.h>
 #include <ctype.h>
 #include <assert.h>
@@ -31,10 +32,6 @@
 #define PERSISTENCE_MINOR_VERSION 0 /* backward compatibility */
 //#define DEBUG_PERSISTENCE_DISK_FORMAT_PRINT
 
-#ifdef offsetof
-#error "offsetof is already defined"
-#endif
-#define offsetof(type, member) __builtin_offsetof(type, member)
 
 #define EXPIRED_REL_EXPTIME(exptime) ((exptime) == 1)
 
-- 
2.43.0


From 58c536a6e1a2cbb8b7e346123352cbfc178a3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 02/59] fix: do not report b+tree trim for a range that ends at
 the first element found

When the first element of a range scan was also the end of the range
(its bkey equals to_bkey), the scan stepped past it, ran off the edge of
the tree and reported the range as overlapping trimmed space, although
nothing of the range was trimmed: bop get answered TRIMMED instead of
END (or OUT_OF_RANGE instead of NOT_FOUND_ELEMENT) and bop smget listed
the key as missed or trimmed.
---
 engines/default/coll_btree.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 61b5890..3b4a016 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -2382,8 +2382,9 @@ static uint32_t do_btree_elem_get(btree_meta_info *info,
                 upth[i] = path[i];
             }
         }
-        /* clear the bkeq flag of current posi */
-        c_posi.bkeq = false;
+        /* set the bkeq flag of current posi: is it the end of bkey range ? */
+        c_posi.bkeq = (bkrange != NULL &&
+                       BKEY_ISEQ(elem->data, elem->nbkey, bkrange->to_bkey, bkrange->to_nbkey));
 
         do {
             if (opcost) *opcost += 1;
@@ -3065,7 +3066,7 @@ do_btree_smget_scan_sort_old(token_t *key_array, const int key_count,
 
         /* initialize for the next scan */
         is_first = true;
-        posi.bkeq = false;
+        posi.bkeq = BKEY_ISEQ(elem->data, elem->nbkey, bkrange->to_bkey, bkrange->to_nbkey);
 
 scan_next:
         if (is_first != true) {
@@ -3255,7 +3256,7 @@ do_btree_smget_scan_sort(token_t *key_array, const int key_count,
 
         /* initialize for the next scan */
         is_first = true;
-        posi.bkeq = false;
+        posi.bkeq = BKEY_ISEQ(elem->data, elem->nbkey, bkrange->to_bkey, bkrange->to_nbkey);
 
 scan_next:
         if (is_first != true) {
-- 
2.43.0


From f5117b1e5987c956c949ed1fbb8c8f7a650b0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 03/59] fix: do not look for a minus sign past the end of a
 number

---
 util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.c b/util.c
index a93bde8..d41a4e0 100644
--- a/util.c
+++ b/util.c
@@ -40,7 +40,8 @@ bool safe_strtoull(const char *str, uint64_t *out) {
             /* only check for negative signs in the uncommon case when
              * the unsigned number is so big that it's negative as a
              * signed number. */
-            if (strchr(str, '-') != NULL) {
+            /* str might not be NUL terminated: do not look past the number. */
+            if (memchr(str, '-', endptr - str) != NULL) {
                 return false;
             }
         }
-- 
2.43.0


From 9a9757dbd17a2ab5b0582f4e2f8f2f423bf286a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 04/59] fix: reject incr and decr of a blank value

---
 engines/default/coll_btree.c |  3 ++-
 engines/default/items.c      |  2 +-
 include/memcached/util.h     |  4 ++++
 util.c                       | 12 ++++++++++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 3b4a016..fb0ad39 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -2638,7 +2638,8 @@ static ENGINE_ERROR_CODE do_btree_elem_arithmetic(btree_meta_info *info,
         *result = initial;
     } else {
         real_nbkey = BTREE_REAL_NBKEY(elem->nbkey);
-        if (! safe_strtoull((const char*)elem->data + real_nbkey + elem->neflag, &value) || elem->nbytes == 2) {
+        if (! safe_strtoull_n((const char*)elem->data + real_nbkey + elem->neflag,
+                              elem->nbytes - 2, &value)) {
             return ENGINE_EINVAL;
         }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..f0d13dc 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -242,7 +242,7 @@ static ENGINE_ERROR_CODE do_add_delta(hash_item *it, const bool incr, const int6
     int res;
 
     ptr = item_get_data(it);
-    if (!safe_strtoull(ptr, &value)) {
+    if (!safe_strtoull_n(ptr, it->nbytes - 2, &value)) {
         return ENGINE_EINVAL;
     }
 
diff --git a/include/memcached/util.h b/include/memcached/util.h
index a95ffb8..7ab3fc2 100644
--- a/include/memcached/util.h
+++ b/include/memcached/util.h
@@ -32,6 +32,10 @@
 extern "C" {
 #endif
 
+/* The same for a string of len bytes that is not NUL terminated,
+ * but followed by a byte that cannot be part of a number.
+ */
+MEMCACHED_PUBLIC_API bool safe_strtoull_n(const char *str, size_t len, uint64_t *out);
 MEMCACHED_PUBLIC_API bool safe_strtoull(const char *str, uint64_t *out);
 MEMCACHED_PUBLIC_API bool safe_strtoll(const char *str, int64_t *out);
 MEMCACHED_PUBLIC_API bool safe_strtoul(const char *str, uint32_t *out);
diff --git a/util.c b/util.c
index d41a4e0..85953c2 100644
--- a/util.c
+++ b/util.c
@@ -51,6 +51,18 @@ bool safe_strtoull(const char *str, uint64_t *out) {
     return false;
 }
 
+bool safe_strtoull_n(const char *str, size_t len, uint64_t *out) {
+    size_t i = 0;
+    assert(out != NULL);
+    /* strtoull() must not skip the blanks that follow a blank string. */
+    while (i < len && isspace((unsigned char)str[i])) i++;
+    if (i == len) {
+        *out = 0;
+        return false;
+    }
+    return safe_strtoull(str, out);
+}
+
 bool safe_strtoll(const char *str, int64_t *out) {
     assert(out != NULL);
     errno = 0;
-- 
2.43.0


From 0e9551e214149b9e671deb9bb40dc4729e7f367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 05/59] fix: a string that starts with a blank but holds no
 number is not a number

---
 util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.c b/util.c
index 85953c2..f4e4109 100644
--- a/util.c
+++ b/util.c
@@ -35,7 +35,7 @@ bool safe_strtoull(const char *str, uint64_t *out) {
     unsigned long long ull = strtoull(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         if ((long long) ull < 0) {
             /* only check for negative signs in the uncommon case when
              * the unsigned number is so big that it's negative as a
-- 
2.43.0


From f09aa781e9e8e85b2a58ba7ce62d565fab9e1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 06/59] fix: count sticky items right when a replacement
 changes stickiness

---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..2e34b53 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0


From 7dfd79323d68a1a3da43a16d81fa7c85169d1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 07/59] fix: swallow the whole field line of a mop delete
 behind a pipe error

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index a2cbf79..e4c3383 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12532,7 +12532,7 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
             }
         } else { /* pipe error */
             if (lenfields > 0) {
-                c->sbytes = lenfields;
+                c->sbytes = lenfields + 2;
                 conn_set_state(c, conn_swallow);
             } else {
                 conn_set_state(c, conn_new_cmd);
-- 
2.43.0


From e22e86bef288a9496c37c7a4ddef7b7798876270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 08/59] fix: swallow the field line of a refused mop delete
 with noreply or pipe

---
 memcached.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index e4c3383..e4380b2 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12499,7 +12499,11 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
                 numfields > ((lenfields/2) + 1)) {
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenfields + 2;
-                c->write_and_go = conn_swallow;
+                if (c->state == conn_write) {
+                    c->write_and_go = conn_swallow;
+                } else { /* conn_new_cmd (by noreply) */
+                    conn_set_state(c, conn_swallow);
+                }
                 return;
             }
         }
-- 
2.43.0


From fdde8d3e7bdfa5bc80245c58def86d20b8f16d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 09/59] fix: keep items of a done flush flushed when a delayed
 flush follows

---
 engines/default/default_engine.h | 1 +
 engines/default/item_base.c      | 3 +++
 engines/default/items.c          | 6 ++++++
 engines/default/prefix.c         | 2 ++
 engines/default/prefix.h         | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 48c4be3..c67e7a8 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -50,6 +50,7 @@ struct default_engine;
 struct engine_config {
    size_t     verbose;
    rel_time_t oldest_live;
+   rel_time_t oldest_live_done; /* done flush whose place in oldest_live was taken by a delayed one */
    bool       use_cas;
    bool       evict_to_free;
    char       prefix_delimiter;
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 2e34b53..4aa3c73 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -574,6 +574,9 @@ bool do_item_isvalid(hash_item *it, rel_time_t current_time)
         config->oldest_live <= current_time && it->time <= config->oldest_live) {
         return false; /* flushed by flush_all */
     }
+    if (config->oldest_live_done != 0 && it->time <= config->oldest_live_done) {
+        return false; /* flushed by an earlier flush_all */
+    }
     /* check if its prefix is invalid */
     if (prefix_isvalid(it, current_time) == false) {
         return false;
diff --git a/engines/default/items.c b/engines/default/items.c
index f0d13dc..347e8c0 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -453,6 +453,9 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
         if (when == 0) {
             pt->oldest_live = svcore->get_current_time() - 1;
         } else {
+            if (pt->oldest_live <= svcore->get_current_time()) {
+                pt->oldest_live_done = pt->oldest_live;
+            }
             pt->oldest_live = when - 1;
         }
         oldest_live = pt->oldest_live;
@@ -480,6 +483,9 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
         if (when == 0) {
             config->oldest_live = svcore->get_current_time() - 1;
         } else {
+            if (config->oldest_live <= svcore->get_current_time()) {
+                config->oldest_live_done = config->oldest_live;
+            }
             config->oldest_live = when - 1;
         }
         oldest_live = config->oldest_live;
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index 7cdb66d..bd6da5b 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -507,6 +507,8 @@ bool prefix_isvalid(hash_item *it, rel_time_t current_time)
             pt->oldest_live <= current_time &&
             it->time <= pt->oldest_live)
             return false;
+        if (pt->oldest_live_done != 0 && it->time <= pt->oldest_live_done)
+            return false;
         /* traverse parent prefixes to validate them */
         pt = pt->parent_prefix;
     } while(pt != NULL && pt != null_pt);
diff --git a/engines/default/prefix.h b/engines/default/prefix.h
index b346e9f..0ddf82d 100644
--- a/engines/default/prefix.h
+++ b/engines/default/prefix.h
@@ -41,6 +41,9 @@ typedef struct _prefix_t {
     /* Number of child prefix items */
     uint32_t child_prefix_items;
 
+    /* done flush whose place in oldest_live was taken by a delayed one */
+    rel_time_t oldest_live_done;
+
     /* count and bytes of cache items per item type */
     uint64_t total_count_exclusive;
     uint64_t total_bytes_exclusive;
-- 
2.43.0


From bc8b56a58a934b155ba5b61423514aab62376836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 10/59] fix: release the item when an arithmetic command meets
 a collection

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 347e8c0..afaea89 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -370,8 +370,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From 8bd141c0748c8d5c04dc9e2c874a6582067ffd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 11/59] fix: do not release uninitialised results of a bop mget
 whose keys never arrived

---
 memcached.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/memcached.c b/memcached.c
index e4380b2..e0d173b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6257,6 +6257,12 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
         c->coll_eitem  = (void *)elem;
         c->coll_ecount = 0;
         c->coll_op = (c->cmd==PROTOCOL_BINARY_CMD_BOP_MGET ? OPERATION_BOP_MGET : OPERATION_BOP_SMGET);
+#ifdef SUPPORT_BOP_MGET
+        if (c->coll_op == OPERATION_BOP_MGET) {
+            /* nothing to release if the connection is closed before the keys are read */
+            memset(c->coll_eitem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         conn_set_state(c, conn_nread);
         c->substate = bin_reading_bop_nread_keys_complete;
     } else {
@@ -11898,6 +11904,12 @@ static void process_bop_prepare_nread_keys(conn *c, int cmd, uint32_t vlen, uint
         c->coll_eitem  = (void *)elem;
         c->coll_ecount = 0;
         c->coll_op = cmd;
+#ifdef SUPPORT_BOP_MGET
+        if (cmd == OPERATION_BOP_MGET) {
+            /* nothing to release if the connection is closed before the keys are read */
+            memset(c->coll_eitem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         conn_set_state(c, conn_nread);
     } else {
 #ifdef SUPPORT_BOP_MGET
-- 
2.43.0


From 6cbaa899a56a4afe56b9dee9154fc67671f19d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 12/59] simulation hook: log and snapshot buffer sizes
 (ARCUS_SIM only)

---
 engines/default/chkpt_snapshot.c | 6 ++++++
 engines/default/cmdlogbuf.c      | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 9c44827..f55d0fc 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -25,7 +25,13 @@
 #ifdef ENABLE_PERSISTENCE
 #include "cmdlogmgr.h"
 
+#ifdef ARCUS_SIM
+/* simulation hook: the buffer size is chosen by the simulator */
+extern size_t arcus_sim_snapshot_buffer_size;
+#define SNAPSHOT_BUFFER_SIZE arcus_sim_snapshot_buffer_size
+#else
 #define SNAPSHOT_BUFFER_SIZE (10 * 1024 * 1024)
+#endif
 #define SCAN_ITEM_ARRAY_SIZE 16
 //#define SCAN_ITEM_ARRAY_SIZE 64
 
diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index a63e6ea..95ebedd 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -29,8 +29,16 @@
 #include "cmdlogfile.h"
 
 /* FIXME: config log buffer size */
+#ifdef ARCUS_SIM
+/* simulation hook: buffer sizes are chosen by the simulator */
+extern size_t arcus_sim_cmdlog_buffer_size;
+extern size_t arcus_sim_cmdlog_flush_auto_size;
+#define CMDLOG_BUFFER_SIZE arcus_sim_cmdlog_buffer_size
+#define CMDLOG_FLUSH_AUTO_SIZE arcus_sim_cmdlog_flush_auto_size
+#else
 #define CMDLOG_BUFFER_SIZE (100 * 1024 * 1024) /* 100 MB */
 #define CMDLOG_FLUSH_AUTO_SIZE (32 * 1024) /* 32 KB : see the nflush data type of log_FREQ */
+#endif
 #define CMDLOG_RECORD_MIN_SIZE 16          /* 8 bytes header + 8 bytes body */
 
 #define ENABLE_DEBUG 0
-- 
2.43.0


From a357beaba3418e8f388e27e1e318486243cc17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 13/59] fix: do not log collection attributes for items that
 have none

With persistence, setattr of maxcount, overflowaction or readable on a
key-value item (where they are ignored) built a log record from a
collection meta structure that does not exist and crashed the server;
maxbkeyrange on other collections logged foreign memory.
---
 engines/default/cmdlogmgr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 5a9f49b..51b4e2f 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -560,11 +560,11 @@ void cmdlog_generate_setattr(hash_item *it,
         else if (attr_ids[i] == ATTR_MAXCOUNT ||
                  attr_ids[i] == ATTR_OVFLACTION ||
                  attr_ids[i] == ATTR_READABLE) {
-            if (attr_type < UPD_SETATTR_EXPTIME_INFO)
+            if (attr_type < UPD_SETATTR_EXPTIME_INFO && IS_COLL_ITEM(it))
                 attr_type = UPD_SETATTR_EXPTIME_INFO;
         }
         else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
-            if (attr_type < UPD_SETATTR_EXPTIME_INFO_BKEY)
+            if (attr_type < UPD_SETATTR_EXPTIME_INFO_BKEY && IS_BTREE_ITEM(it))
                 attr_type = UPD_SETATTR_EXPTIME_INFO_BKEY;
         }
     }
-- 
2.43.0


From 677ff8742afc53366651a4fd7b463f394f7622ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 14/59] fix: remove the incomplete tail of the command log
 after recovery

A log record (or a multi-record operation) that was not completely written
before a crash was skipped by recovery but left in the file. The next records
were appended after it, so the next recovery failed on it or lost everything
behind it.
---
 engines/default/cmdlogfile.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 34f5245..dc86e73 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -439,6 +439,7 @@ int cmdlog_file_apply(void)
 
     int  ret = 0;
     int  seek_offset = 0;
+    int  valid_offset = 0; /* the end of the last completely applied log record */
     int  pending_start_offset = 0;
     int  pending_end_offset = 0;
     bool pending = false;
@@ -496,6 +497,7 @@ int cmdlog_file_apply(void)
             pending_start_offset = 0;
             pending_end_offset = 0;
             pending = false;
+            valid_offset = seek_offset;
             continue;
         }
 
@@ -505,13 +507,6 @@ int cmdlog_file_apply(void)
                 logger->log(EXTENSION_LOG_INFO, NULL,
                             "[RECOVERY - CMDLOG] body of last log record was not completely written. "
                             "body_length=%d\n", loghdr->body_length);
-                seek_offset = disk_lseek(logfile->fd, -sizeof(LogHdr), SEEK_CUR);
-                if (seek_offset < 0) {
-                    logger->log(EXTENSION_LOG_WARNING, NULL,
-                                "[RECOVERY - CMDLOG] failed : lseek(SEEK_CUR-%zd). path=%s, error=%s.\n",
-                                sizeof(LogHdr), logfile->path, strerror(errno));
-                    ret = -1;
-                }
                 break;
             }
 
@@ -535,6 +530,7 @@ int cmdlog_file_apply(void)
         }
 
         if (pending) continue;
+        valid_offset = seek_offset;
 
         /* redo log record */
         ENGINE_ERROR_CODE err = lrec_redo_from_record(logrec);
@@ -549,10 +545,23 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0 && log_file_gl.initialized && valid_offset < logfile->size) {
+        /* Remove the incomplete log record or operation at the end of the file
+         * so that new log records follow the last complete one.
+         */
+        if (ftruncate(logfile->fd, valid_offset) < 0 ||
+            disk_lseek(logfile->fd, valid_offset, SEEK_SET) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : truncate(%d). path=%s, error=%s.\n",
+                        valid_offset, logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret < 0) {
-        close(logfile->fd);
+        (void)disk_close(logfile->fd);
+        logfile->fd = -1;
     } else {
-        logfile->size = seek_offset;
+        logfile->size = valid_offset;
         logger->log(EXTENSION_LOG_INFO, NULL, "[RECOVERY - CMDLOG] success.\n");
     }
     return ret;
-- 
2.43.0


From ae4df2e69a9ab65f369c3cb6194822b81fef3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 15/59] fix: do not give a restored cas id to another value
 after recovery

The cas id counter started again from zero after a restart although recovered
items keep their cas ids, so that two different values of a key could carry
the same cas id.
---
 engines/default/item_base.c | 13 ++++++++++++-
 engines/default/item_base.h |  1 +
 engines/default/items.c     |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 4aa3c73..326edab 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -380,10 +380,12 @@ static inline uint32_t GEN_ITEM_KEY_HASH(const char *key, const uint32_t nkey)
         return svcore->hash(key, nkey, 0);
     }
 }
+/* The last CAS id given to an item. */
+static uint64_t cas_id = 0;
+
 /* Get the next CAS id for a new item. */
 static uint64_t get_cas_id(void)
 {
-    static uint64_t cas_id = 0;
     return ++cas_id;
 }
 
@@ -1365,6 +1367,15 @@ void item_set_cas(const hash_item* item, uint64_t val)
     }
 }
 
+void item_restore_cas(const hash_item* item, uint64_t val)
+{
+    item_set_cas(item, val);
+    /* The restored CAS id must not be given again to a different value. */
+    if (cas_id < val) {
+        cas_id = val;
+    }
+}
+
 const void* item_get_key(const hash_item* item)
 {
     return ((char*)item + _hash_item_size(item));
diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 2ca8fad..577ef28 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -393,6 +393,7 @@ void coll_del_thread_wakeup(void);
  */
 uint64_t    item_get_cas(const hash_item* item);
 void        item_set_cas(const hash_item* item, uint64_t val);
+void        item_restore_cas(const hash_item* item, uint64_t val);
 const void* item_get_key(const hash_item* item);
 char*       item_get_data(const hash_item* item);
 const void* item_get_meta(const hash_item* item);
diff --git a/engines/default/items.c b/engines/default/items.c
index afaea89..e7d45c7 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1752,7 +1752,7 @@ ENGINE_ERROR_CODE item_apply_kv_link(void *engine, const char *key, const uint32
         }
         if (ret == ENGINE_SUCCESS) {
             /* Override the cas with the given cas. */
-            item_set_cas(new_it, cas);
+            item_restore_cas(new_it, cas);
         }
         do_item_release(new_it);
     } else {
-- 
2.43.0


From 47866190f76eb0f700ded7e0d3ee494479e6d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 16/59] fix: reset maxbkeyrange when a log record that reset it
 is replayed

---
 engines/default/cmdlogrec.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index e226ca8..dda36e9 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -448,11 +448,13 @@ static ENGINE_ERROR_CODE lrec_it_setattr_redo(LogRec *logrec)
     } else {
         bkey_t maxbkeyrange;
         bkey_t *maxbkrptr = NULL;
-        if (body->maxbkrlen != BKEY_NULL) {
-            maxbkeyrange.len = body->maxbkrlen;
-            memcpy(maxbkeyrange.val, body->data, BTREE_REAL_NBKEY(body->maxbkrlen));
+        if (log->header.updtype == UPD_SETATTR_EXPTIME_INFO_BKEY) {
+            maxbkeyrange.len = body->maxbkrlen; /* BKEY_NULL: maxbkeyrange was reset */
+            if (body->maxbkrlen != BKEY_NULL) {
+                memcpy(maxbkeyrange.val, body->data, BTREE_REAL_NBKEY(body->maxbkrlen));
+                keyptr += BTREE_REAL_NBKEY(body->maxbkrlen);
+            }
             maxbkrptr = &maxbkeyrange;
-            keyptr += BTREE_REAL_NBKEY(body->maxbkrlen);
         }
         hash_item *it = item_get(keyptr, body->keylen);
         if (it) {
-- 
2.43.0


From 724e8e7a2f9589918c019dbc43b229815b3cf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 17/59] fix: acknowledge a change only after its whole log
 record is synced

A log record can be divided into several flush requests. The waiter waited for
the first byte of its record only, so a change was acknowledged while the rest
of its record was still in the log buffer.
---
 engines/default/cmdlogbuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index 95ebedd..6ecb911 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -241,6 +241,10 @@ static LogSN do_log_buff_write(LogRec *logrec, bool dual_write)
 
     /* update nxt_write_lsn */
     current_lsn = log_buff_gl.nxt_write_lsn;
+    /* The lsn to wait for is that of the last byte, because the log record
+     * can be divided into two or more flush requests.
+     */
+    current_lsn.roffset += (total_length - 1);
     log_buff_gl.nxt_write_lsn.roffset += total_length;
 
     /* update log flush request */
-- 
2.43.0


From 207d550d851bac7f47ba88640e199c4dafdcc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 18/59] fix: log the trimmed mark of a b+tree set by a refused
 insertion

---
 engines/default/coll_btree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index fb0ad39..e55f3f3 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -2046,6 +2046,16 @@ static inline void get_bkey_full_range(const int bktype, const bool ascend, bkey
 }
 #endif
 
+static void do_btree_set_implicit_trim(btree_meta_info *info)
+{
+    if ((info->mflags & COLL_META_FLAG_TRIMMED) == 0) {
+        ENGINE_ITEM_ATTR attr_id = ATTR_OVFLACTION;
+        info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+        /* No element is changed: log the changed meta info itself. */
+        CLOG_ITEM_SETATTR((hash_item*)COLL_GET_HASH_ITEM(info), &attr_id, 1);
+    }
+}
+
 static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_elem_item *elem,
                                                  int *overflow_type)
 {
@@ -2100,7 +2110,7 @@ static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_el
             if (BKEY_ISLT(elem->data, elem->nbkey, min_bkey_elem->data, min_bkey_elem->nbkey)) {
                 if (info->ovflact == OVFL_SMALLEST_TRIM) {
                     /* It means the implicit trim. */
-                    info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+                    do_btree_set_implicit_trim(info);
                 }
                 return ENGINE_EBKEYOOR;
             }
@@ -2110,7 +2120,7 @@ static ENGINE_ERROR_CODE do_btree_overflow_check(btree_meta_info *info, btree_el
             if (BKEY_ISGT(elem->data, elem->nbkey, max_bkey_elem->data, max_bkey_elem->nbkey)) {
                 if (info->ovflact == OVFL_LARGEST_TRIM) {
                     /* It means the implicit trim. */
-                    info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
+                    do_btree_set_implicit_trim(info);
                 }
                 return ENGINE_EBKEYOOR;
             }
-- 
2.43.0


From 8e148b70ad8ce6cde6d33f451c06cc075de5c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 19/59] fix: sync the snapshot file that recovery relies on

---
 engines/default/chkpt_snapshot.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index f55d0fc..8f4e042 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -799,6 +799,15 @@ int chkpt_snapshot_file_apply(const char *filepath)
             if (last_coll_it != NULL) {
                 item_release(last_coll_it);
             }
+            /* The last process might have been terminated before it synced the file.
+             * Log records to be synced from now on are meaningful only with the file.
+             */
+            if (fsync(fd) < 0) {
+                logger->log(EXTENSION_LOG_WARNING, NULL,
+                            "[RECOVERY - SNAPSHOT] failed : file sync. "
+                            "path=%s, error=%s\n", filepath, strerror(errno));
+                ret = -1; break;
+            }
             logger->log(EXTENSION_LOG_INFO, NULL, "[RECOVERY - SNAPSHOT] success.\n");
             break;
         }
-- 
2.43.0


From c8dd04c49fd08a309ef7d060bc12f39bacdea209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 20/59] fix: keep expired items while log records are replayed

A log record of an item that has expired by the time of recovery was skipped,
although following records can change the expire time of the item (lost item)
and although the item had replaced another one (resurrected item).
---
 engines/default/cmdlogmgr.c |  2 ++
 engines/default/cmdlogrec.c | 47 +++++------------------------
 engines/default/item_base.c | 59 ++++++++++++++++++++++++++++++-------
 engines/default/item_base.h |  1 +
 engines/default/items.c     |  5 ++++
 5 files changed, 64 insertions(+), 50 deletions(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 51b4e2f..d232f06 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -97,7 +97,9 @@ static ENGINE_ERROR_CODE cmdlog_mgr_recovery(void)
         return ENGINE_FAILED;
     }
     /* do recovery. */
+    item_set_recovery(true);
     ret = chkpt_recovery_redo();
+    item_set_recovery(false);
     if (ret < 0) {
         return ENGINE_FAILED;
     }
diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index dda36e9..80d21d8 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -32,9 +32,6 @@
 #define PERSISTENCE_MINOR_VERSION 0 /* backward compatibility */
 //#define DEBUG_PERSISTENCE_DISK_FORMAT_PRINT
 
-
-#define EXPIRED_REL_EXPTIME(exptime) ((exptime) == 1)
-
 /* Get aligned size */
 #define GET_8_ALIGN_SIZE(size) \
     (((size) % 8) == 0 ? (size) : ((size) + (8 - ((size) % 8))))
@@ -303,10 +300,6 @@ static ENGINE_ERROR_CODE lrec_it_link_redo(LogRec *logrec)
     char *keyptr = body->data;
 
     cm.exptime = CONVERT_REL_EXPTIME(cm.exptime);
-    if (EXPIRED_REL_EXPTIME(cm.exptime)) {
-        return ENGINE_SUCCESS;
-    }
-
     if (cm.ittype == ITEM_TYPE_KV) {
         ret = item_apply_kv_link(engine, keyptr, cm.keylen, cm.flags, cm.exptime,
                                  cm.vallen, (keyptr + cm.keylen), body->ptr.cas);
@@ -586,21 +579,15 @@ static ENGINE_ERROR_CODE lrec_list_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
-        if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
-                                                     "already exist.\n");
+        if (it) { /* an expired item: it will be replaced */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(keyptr + body->keylen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = list_apply_item_link(engine, keyptr, body->keylen, &attr);
-        if (ret != ENGINE_SUCCESS) {
+        if (ret != ENGINE_SUCCESS && ret != ENGINE_KEY_EEXISTS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
                                                      "item allocate failed.\n");
             return ret;
@@ -720,21 +707,15 @@ static ENGINE_ERROR_CODE lrec_set_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
-        if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
-                                                     "already exist.\n");
+        if (it) { /* an expired item: it will be replaced */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(valptr + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = set_apply_item_link(engine, keyptr, body->keylen, &attr);
-        if (ret != ENGINE_SUCCESS) {
+        if (ret != ENGINE_SUCCESS && ret != ENGINE_KEY_EEXISTS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
                                                      "item allocate failed.\n");
             return ret;
@@ -856,21 +837,15 @@ static ENGINE_ERROR_CODE lrec_map_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
-        if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
-                                                     "already exist.\n");
+        if (it) { /* an expired item: it will be replaced */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
         }
 
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(datptr + body->fldlen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = map_apply_item_link(engine, keyptr, body->keylen, &attr);
-        if (ret != ENGINE_SUCCESS) {
+        if (ret != ENGINE_SUCCESS && ret != ENGINE_KEY_EEXISTS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
                                                      "item allocate failed.\n");
             return ret;
@@ -994,23 +969,17 @@ static ENGINE_ERROR_CODE lrec_bt_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
-        if (it) {
-            logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_bt_elem_insert_redo failed. "
-                                                     "already exist.\n");
+        if (it) { /* an expired item: it will be replaced */
             item_release(it);
-            return ENGINE_KEY_EEXISTS;
         }
 
         /* create collection item */
         item_attr attr;
         int datlen = BTREE_REAL_NBKEY(log->body.nbkey) + log->body.neflag + log->body.vallen;
         do_construct_item_attr(datptr + datlen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         attr.maxbkeyrange.len = BKEY_NULL;
         ret = btree_apply_item_link(engine, keyptr, body->keylen, &attr);
-        if (ret != ENGINE_SUCCESS) {
+        if (ret != ENGINE_SUCCESS && ret != ENGINE_KEY_EEXISTS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_bt_elem_insert_redo failed. "
                                                      "item allocate failed.\n");
             return ret;
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 326edab..d42cef1 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -380,6 +380,11 @@ static inline uint32_t GEN_ITEM_KEY_HASH(const char *key, const uint32_t nkey)
         return svcore->hash(key, nkey, 0);
     }
 }
+/* While log records are replayed, expired items are still found
+ * because a following log record can change their expire time.
+ */
+static bool item_in_recovery = false;
+
 /* The last CAS id given to an item. */
 static uint64_t cas_id = 0;
 
@@ -559,33 +564,51 @@ static void item_unlink_q(hash_item *it)
     return;
 }
 
-//static bool do_item_isvalid(hash_item *it, rel_time_t current_time)
-bool do_item_isvalid(hash_item *it, rel_time_t current_time)
+static bool do_item_isexpired(hash_item *it, rel_time_t current_time)
 {
-    /* check if it's expired */
 #ifdef ENABLE_STICKY_ITEM
     /* The sticky item has an exptime((rel_tiem_t)(-1)) that is
      * larger than any current_time.  So, it never be expired.
      **/
 #endif
-    if (it->exptime != 0 && it->exptime <= current_time) {
-        return false; /* expired */
-    }
+    return (it->exptime != 0 && it->exptime <= current_time);
+}
+
+static bool do_item_isflushed(hash_item *it, rel_time_t current_time)
+{
     /* check if it's flushed */
     if (config->oldest_live != 0 &&
         config->oldest_live <= current_time && it->time <= config->oldest_live) {
-        return false; /* flushed by flush_all */
+        return true; /* flushed by flush_all */
     }
     if (config->oldest_live_done != 0 && it->time <= config->oldest_live_done) {
-        return false; /* flushed by an earlier flush_all */
+        return true; /* flushed by an earlier flush_all */
     }
     /* check if its prefix is invalid */
     if (prefix_isvalid(it, current_time) == false) {
+        return true;
+    }
+    return false;
+}
+
+//static bool do_item_isvalid(hash_item *it, rel_time_t current_time)
+bool do_item_isvalid(hash_item *it, rel_time_t current_time)
+{
+    if (do_item_isexpired(it, current_time) || do_item_isflushed(it, current_time)) {
         return false;
     }
     return true; /* Yes, it's a valid item */
 }
 
+/* check if the item can be found by its key */
+static bool do_item_isfindable(hash_item *it, rel_time_t current_time)
+{
+    if (do_item_isexpired(it, current_time) && !item_in_recovery) {
+        return false;
+    }
+    return (do_item_isflushed(it, current_time) == false);
+}
+
 static hash_item *do_item_reclaim(hash_item *it,
                                   const size_t ntotal, const unsigned int clsid,
                                   const unsigned int lruid)
@@ -742,6 +765,15 @@ void *do_item_mem_alloc(const size_t ntotal, const unsigned int clsid,
         }
     }
 
+    /* In recovery, do not reclaim expired items while free memory exists. */
+    if (item_in_recovery) {
+        it = slabs_alloc(ntotal, clsid_based_on_ntotal);
+        if (it != NULL) {
+            it->slabs_clsid = 0;
+            return (void *)it;
+        }
+    }
+
 #ifdef ENABLE_STICKY_ITEM
     /* reclaim the flushed sticky items */
     if (itemsp->sticky_curMK[lruid] != NULL) {
@@ -1172,7 +1204,7 @@ hash_item *do_item_get(const char *key, const uint32_t nkey, bool do_update)
     hash_item *it = assoc_find(key, nkey, GEN_ITEM_KEY_HASH(key, nkey));
     if (it) {
         rel_time_t current_time = svcore->get_current_time();
-        if (do_item_isvalid(it, current_time)) {
+        if (do_item_isfindable(it, current_time)) {
             ITEM_REFCOUNT_INCR(it);
             DEBUG_REFCNT(it, '+');
             if (do_update) {
@@ -1219,7 +1251,7 @@ void do_item_release(hash_item *it)
         else if (it->prev == it && it->next == it) {
             /* re-link the item into the LRU list */
             rel_time_t current_time = svcore->get_current_time();
-            if (do_item_isvalid(it, current_time)) {
+            if (do_item_isfindable(it, current_time)) {
                 it->time = current_time;
                 item_link_q(it);
             } else {
@@ -1367,6 +1399,11 @@ void item_set_cas(const hash_item* item, uint64_t val)
     }
 }
 
+void item_set_recovery(bool recovery)
+{
+    item_in_recovery = recovery;
+}
+
 void item_restore_cas(const hash_item* item, uint64_t val)
 {
     item_set_cas(item, val);
@@ -1415,7 +1452,7 @@ bool item_is_valid(hash_item* item)
 {
     if (item->iflag & ITEM_LINKED) {
         rel_time_t current_time = svcore->get_current_time();
-        return do_item_isvalid(item, current_time);
+        return do_item_isfindable(item, current_time);
     } else {
         return false;
     }
diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 577ef28..48d881a 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -393,6 +393,7 @@ void coll_del_thread_wakeup(void);
  */
 uint64_t    item_get_cas(const hash_item* item);
 void        item_set_cas(const hash_item* item, uint64_t val);
+void        item_set_recovery(bool recovery);
 void        item_restore_cas(const hash_item* item, uint64_t val);
 const void* item_get_key(const hash_item* item);
 char*       item_get_data(const hash_item* item);
diff --git a/engines/default/items.c b/engines/default/items.c
index e7d45c7..88a2b87 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1737,6 +1737,11 @@ ENGINE_ERROR_CODE item_apply_kv_link(void *engine, const char *key, const uint32
 
     LOCK_CACHE();
     old_it = do_item_get(key, nkey, DONT_UPDATE);
+    if (old_it && IS_COLL_ITEM(old_it)) { /* an expired collection item */
+        do_item_unlink(old_it, ITEM_UNLINK_NORMAL);
+        do_item_release(old_it);
+        old_it = NULL;
+    }
     new_it = do_item_alloc(key, nkey, flags, exptime, nbytes, NULL); /* cookie is NULL */
     if (new_it) {
         /* Assume data is small, and copying with lock held is okay : FIXME */
-- 
2.43.0


From 66f9c5e8a90b40bd1ea6c69471b20417b5180d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 21/59] fix: keep the item of snapshot elements out of the
 record being redone

The item pointer was stored in the log record read from the snapshot file,
over bytes 10..17 of every element's data, so elements of collections were
corrupted by recovery from a snapshot.
---
 engines/default/cmdlogrec.c | 24 +++++++++++++++---------
 engines/default/cmdlogrec.h |  1 -
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 80d21d8..ab1579b 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1269,21 +1269,27 @@ static void lrec_snapshot_elem_link_write(LogRec *logrec, char *bufptr)
     }
 }
 
+/* The collection item that has the snapshot elements being redone.
+ * It must not be kept in the log record because the element data are there.
+ */
+static hash_item *snapshot_elem_it = NULL;
+
 static ENGINE_ERROR_CODE lrec_snapshot_elem_link_redo(LogRec *logrec)
 {
     ENGINE_ERROR_CODE ret = ENGINE_FAILED;
     SnapshotElemLog  *log  = (SnapshotElemLog*)logrec;
     SnapshotElemData *body = &log->body;
     char *valptr = body->data;
+    hash_item *it = snapshot_elem_it;
 
-    if (IS_LIST_ITEM(log->it)) {
-        ret = list_apply_elem_insert(engine, log->it, -1, -1, valptr, body->nbytes);
-    } else if (IS_SET_ITEM(log->it)) {
-        ret = set_apply_elem_insert(engine, log->it, valptr, body->nbytes);
-    } else if (IS_MAP_ITEM(log->it)) {
-        ret = map_apply_elem_insert(engine, log->it, valptr, body->nekey, body->nbytes);
-    } else if (IS_BTREE_ITEM(log->it)) {
-        ret = btree_apply_elem_insert(engine, log->it, valptr, body->nekey, body->neflag, body->nbytes);
+    if (IS_LIST_ITEM(it)) {
+        ret = list_apply_elem_insert(engine, it, -1, -1, valptr, body->nbytes);
+    } else if (IS_SET_ITEM(it)) {
+        ret = set_apply_elem_insert(engine, it, valptr, body->nbytes);
+    } else if (IS_MAP_ITEM(it)) {
+        ret = map_apply_elem_insert(engine, it, valptr, body->nekey, body->nbytes);
+    } else if (IS_BTREE_ITEM(it)) {
+        ret = btree_apply_elem_insert(engine, it, valptr, body->nekey, body->neflag, body->nbytes);
     }
 
     if (ret != ENGINE_SUCCESS) {
@@ -1803,7 +1809,7 @@ void lrec_set_item_in_snapshot_elem(SnapshotElemLog *log, hash_item *it)
 {
     assert(it != NULL);
     if (log->header.logtype == LOG_SNAPSHOT_ELEM) {
-        log->it = it;
+        snapshot_elem_it = it;
     }
 }
 
diff --git a/engines/default/cmdlogrec.h b/engines/default/cmdlogrec.h
index dae763c..f37eec5 100644
--- a/engines/default/cmdlogrec.h
+++ b/engines/default/cmdlogrec.h
@@ -203,7 +203,6 @@ typedef struct _snapshot_elem_log {
     LogHdr           header;
     SnapshotElemData body;
     char             *valptr;
-    hash_item        *it;
 } SnapshotElemLog;
 
 /* List Elem Insert Log Record */
-- 
2.43.0


From 1547ca915256dacc996a172f49d8a8a1ab09701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 22/59] fix: write the log before a snapshot gets valid in
 async logging mode

---
 engines/default/chkpt_snapshot.c | 13 +++++++++++++
 engines/default/cmdlogbuf.c      | 17 +++++++++++++++++
 engines/default/cmdlogbuf.h      |  1 +
 3 files changed, 31 insertions(+)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 8f4e042..98394f1 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -24,6 +24,8 @@
 #include "default_engine.h"
 #ifdef ENABLE_PERSISTENCE
 #include "cmdlogmgr.h"
+#include "cmdlogbuf.h"
+#include "cmdlogfile.h"
 
 #ifdef ARCUS_SIM
 /* simulation hook: the buffer size is chosen by the simulator */
@@ -290,6 +292,17 @@ static int do_snapshot_data_done(snapshot_st *ss)
     char *bufptr;
     int logsize;
 
+    if (ss->mode == CHKPT_SNAPSHOT_MODE_CHKPT) {
+        /* The snapshot can contain the updates whose log records are still
+         * in the log buffer (async logging). The log records of the updates
+         * preceding them must be in the log file before the snapshot gets valid.
+         */
+        cmdlog_buff_flush_all();
+        if (cmdlog_file_sync() < 0) {
+            return -1;
+        }
+    }
+
     SnapshotDoneLog log;
     logsize = lrec_construct_snapshot_done((LogRec*)&log);
     if (do_snapshot_buffer_check_space(ss, logsize) < 0) {
diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index 6ecb911..70b649c 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -384,6 +384,23 @@ void cmdlog_buff_flush_direct(LogSN *upto_lsn)
     }
 }
 
+void cmdlog_buff_flush_all(void)
+{
+    LogSN now_write_lsn;
+    uint32_t nflush;
+
+    /* flush all the log records written until now */
+    cmdlog_get_write_lsn(&now_write_lsn);
+    do {
+        nflush = 0;
+        pthread_mutex_lock(&log_buff_gl.log_flush_lock);
+        if (LOGSN_IS_LT(&log_buff_gl.nxt_flush_lsn, &now_write_lsn)) {
+            nflush = do_log_buff_flush(true);
+        }
+        pthread_mutex_unlock(&log_buff_gl.log_flush_lock);
+    } while (nflush > 0);
+}
+
 void cmdlog_buff_flush_request(LogSN *upto_lsn)
 {
     assert(upto_lsn);
diff --git a/engines/default/cmdlogbuf.h b/engines/default/cmdlogbuf.h
index 59615a0..4a1d479 100644
--- a/engines/default/cmdlogbuf.h
+++ b/engines/default/cmdlogbuf.h
@@ -25,6 +25,7 @@
 /* external log buffer functions */
 void cmdlog_buff_write(LogRec *logrec, log_waiter_t *waiter, bool dual_write);
 void cmdlog_buff_flush_direct(LogSN *upto_lsn);
+void cmdlog_buff_flush_all(void);
 void cmdlog_buff_flush_request(LogSN *upto_lsn);
 void cmdlog_buff_complete_dual_write(bool success);
 
-- 
2.43.0


From 2cb35749743604c6b8ab7678e43c0ad6b8882b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 23/59] fix: flush all the log records at shutdown

---
 engines/default/cmdlogbuf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index 70b649c..d22e82c 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -503,7 +503,9 @@ void cmdlog_buf_final(void)
     }
 
     /* In async mode, log records may remain in CMDLOG_FLUSH_AUTO_SIZE. */
-    (void)do_log_buff_flush(true);
+    while (do_log_buff_flush(true) > 0) {
+        /* flush all the remaining log records */
+    }
 
     /* log buffer final */
     log_BUFFER *logbuff = &log_buff_gl.log_buffer;
-- 
2.43.0


From bbb1e5f1bc6552e5e5ecb0d136b69b17640d5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 24/59] fix: sweep only obsolete checkpoint files, including
 those left by a crash

---
 engines/default/checkpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/default/checkpoint.c b/engines/default/checkpoint.c
index 32aa856..6422d6e 100644
--- a/engines/default/checkpoint.c
+++ b/engines/default/checkpoint.c
@@ -99,7 +99,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_SNAPSHOT_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->snapshot_path, "%s/%s", cs->data_path, ent->d_name);
@@ -124,7 +124,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_CMDLOG_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->cmdlog_path, "%s/%s", cs->logs_path, ent->d_name);
@@ -305,7 +305,7 @@ static void* chkpt_thread_main(void* arg)
     chkpt_st *cs = (chkpt_st *)arg;
     size_t elapsed_time = 0; /* unit : second */
     size_t flsweep_time = 0; /* unit : second */
-    bool need_remove = false;
+    bool need_remove = true; /* sweep the files left by the previous run */
     int ret = CHKPT_SUCCESS;
 
     cs->running = RUNNING_STARTED;
-- 
2.43.0


From 04cce0aeb7886bec9561008b4340076715358e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 25/59] fix: name checkpoint files in their order even if the
 clock goes back

---
 engines/default/checkpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/default/checkpoint.c b/engines/default/checkpoint.c
index 6422d6e..eff77bd 100644
--- a/engines/default/checkpoint.c
+++ b/engines/default/checkpoint.c
@@ -234,6 +234,10 @@ static int do_checkpoint(chkpt_st *cs)
 {
     logger->log(EXTENSION_LOG_INFO, NULL, "Checkpoint started.\n");
     int64_t newtime = getnowdatetime_int();
+    if (newtime <= cs->lasttime) {
+        /* The clock went back. The last checkpoint must have the latest time. */
+        newtime = cs->lasttime + 1;
+    }
     chkpt_last_stat.last_chkpt_in_progress = true;
     chkpt_last_stat.last_chkpt_start_time = newtime;
     time_t start, end;
-- 
2.43.0


From 56d412ce60689c6cb22fd46610f9de0f1223d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 26/59] fix: fail the snapshot when its file cannot be synced

---
 engines/default/chkpt_snapshot.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 98394f1..2413c52 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -143,7 +143,11 @@ static int do_snapshot_buffer_flush(snapshot_st *ss)
         ssb->curlen = 0;
     }
     if (1) { /* Assume that some data are written */
-        (void)fsync(ss->file.fd);
+        if (fsync(ss->file.fd) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "Failed to sync the snapshot. error=%s\n", strerror(errno));
+            return -1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 368aaef1cd024b3f125f5aaf60f269e9ee918cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 27/59] fix: find a b+tree with maxbkeyrange when its snapshot
 elements are redone

The key of the link record was taken from the maxbkeyrange value, so all the
elements of such b+trees were dropped by recovery from a snapshot.
---
 engines/default/cmdlogrec.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index ab1579b..bcfb094 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1801,7 +1801,15 @@ hash_item *lrec_get_item_if_collection_link(ITLinkLog *log)
         log->header.updtype == UPD_STORE) {
         return NULL;
     }
-    hash_item *it = item_get(&log->body.data, log->body.cm.keylen);
+    char *keyptr = log->body.data;
+    if (log->body.cm.ittype == ITEM_TYPE_BTREE) {
+        /* the key follows the maxbkeyrange value */
+        struct lrec_coll_meta *meta = (struct lrec_coll_meta*)&log->body.ptr.meta;
+        if (meta->maxbkrlen != BKEY_NULL) {
+            keyptr += BTREE_REAL_NBKEY(meta->maxbkrlen);
+        }
+    }
+    hash_item *it = item_get(keyptr, log->body.cm.keylen);
     return it;
 }
 
-- 
2.43.0


From fcf6e164bac510047a790b13d42f7f32ab565c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 28/59] fix: log the items stored after a flush during a
 checkpoint to the new log too

A flush during the checkpoint scan is logged to both logs, but the items stored
after it were logged only to the old log if they were not scanned yet. Recovery
replayed the flush on the snapshot containing them and lost them.
---
 engines/default/chkpt_snapshot.c |  5 +++
 engines/default/cmdlogmgr.c      | 59 +++++++++++++++++++++++++++++++-
 engines/default/cmdlogmgr.h      |  1 +
 3 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 2413c52..e5a1750 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -297,6 +297,11 @@ static int do_snapshot_data_done(snapshot_st *ss)
     int logsize;
 
     if (ss->mode == CHKPT_SNAPSHOT_MODE_CHKPT) {
+        if (!cmdlog_is_chkpt_scan_valid()) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "Too many prefixes have been flushed during the checkpoint.\n");
+            return -1;
+        }
         /* The snapshot can contain the updates whose log records are still
          * in the log buffer (async logging). The log records of the updates
          * preceding them must be in the log file before the snapshot gets valid.
diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index d232f06..048fa15 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -33,8 +33,22 @@ static struct assoc_scan *chkpt_scanp=NULL; // checkpoint scan pointer
 
 static bool gen_logical_btree_delete_log=false; // btree generate logical delete log
 
+/* Prefixes flushed while the checkpoint scan is in progress.
+ * The flush is replayed on the snapshot, in which the items linked after the flush
+ * might be contained. So, those items must be logged from their link log records.
+ */
+#define MAX_FLUSHED_PREFIX_COUNT 16
+#define MAX_FLUSHED_PREFIX_LENGTH 256
+static struct {
+    int  nprefix; /* -1: all prefixes, 0: null prefix */
+    char prefix[MAX_FLUSHED_PREFIX_LENGTH];
+} chkpt_flushed[MAX_FLUSHED_PREFIX_COUNT];
+static int  chkpt_flushed_count=0;
+static bool chkpt_flushed_overflow=false;
+
 #define NEED_DUAL_WRITE(it) ((chkpt_scanp != NULL) && \
-                             (it == NULL || assoc_scan_in_visited_area(chkpt_scanp, it)))
+                             (it == NULL || assoc_scan_in_visited_area(chkpt_scanp, it) || \
+                              (chkpt_flushed_count > 0 && do_cmdlog_is_flushed_in_scan(it))))
 
 /* The size of memory chunk for log waiters */
 #define LOG_WAITER_CHUNK_SIZE (4 * 1024)
@@ -514,6 +528,39 @@ void cmdlog_mgr_final(void)
     }
 }
 
+static bool do_cmdlog_is_flushed_in_scan(hash_item *it)
+{
+    for (int i = 0; i < chkpt_flushed_count; i++) {
+        if (chkpt_flushed[i].nprefix < 0 ||
+            prefix_isincluded(it->pfxptr, chkpt_flushed[i].prefix, chkpt_flushed[i].nprefix)) {
+            return true;
+        }
+    }
+    return false;
+}
+
+static void do_cmdlog_set_flushed_in_scan(const char *prefix, const int nprefix)
+{
+    for (int i = 0; i < chkpt_flushed_count; i++) {
+        if (chkpt_flushed[i].nprefix < 0 ||
+            (chkpt_flushed[i].nprefix == nprefix &&
+             memcmp(chkpt_flushed[i].prefix, prefix, nprefix) == 0)) {
+            return; /* already set */
+        }
+    }
+    if (nprefix < 0) {
+        chkpt_flushed_count = 0; /* it includes all the others */
+    }
+    if (chkpt_flushed_count >= MAX_FLUSHED_PREFIX_COUNT || nprefix > MAX_FLUSHED_PREFIX_LENGTH) {
+        chkpt_flushed_overflow = true; /* the snapshot must fail */
+        return;
+    }
+    if (nprefix > 0) {
+        memcpy(chkpt_flushed[chkpt_flushed_count].prefix, prefix, nprefix);
+    }
+    chkpt_flushed[chkpt_flushed_count++].nprefix = nprefix;
+}
+
 /* Generate Log Record Functions */
 void cmdlog_generate_link_item(hash_item *it)
 {
@@ -547,6 +594,9 @@ void cmdlog_generate_flush_item(const char *prefix, const int nprefix, const tim
         ITFlushLog log;
         (void)lrec_construct_flush_item((LogRec*)&log, prefix, nprefix);
         cmdlog_buff_write((LogRec*)&log, cmdlog_get_my_waiter(), NEED_DUAL_WRITE(NULL));
+        if (chkpt_scanp != NULL) {
+            do_cmdlog_set_flushed_in_scan(prefix, nprefix);
+        }
     }
 }
 
@@ -704,9 +754,16 @@ void cmdlog_set_chkpt_scan(void *scanp)
     if (chkpt_get_lasttime() != -1) {
         /* normal checkpoint by checkpoint thread */
         chkpt_scanp = scanp;
+        chkpt_flushed_count = 0;
+        chkpt_flushed_overflow = false;
     }
 }
 
+bool cmdlog_is_chkpt_scan_valid(void)
+{
+    return (chkpt_flushed_overflow == false);
+}
+
 void cmdlog_reset_chkpt_scan(bool chkpt_success)
 {
     /* Cache locked */
diff --git a/engines/default/cmdlogmgr.h b/engines/default/cmdlogmgr.h
index 81fdc37..b181f2b 100644
--- a/engines/default/cmdlogmgr.h
+++ b/engines/default/cmdlogmgr.h
@@ -80,6 +80,7 @@ void cmdlog_generate_btree_elem_delete_logical(hash_item *it, const bkey_range *
 void cmdlog_generate_operation_range(bool begin);
 
 void cmdlog_set_chkpt_scan(void *scanp);
+bool cmdlog_is_chkpt_scan_valid(void);
 void cmdlog_reset_chkpt_scan(bool chkpt_success);
 #endif
 
-- 
2.43.0


From 0a7f281d5f69732063113fbfcc78259046624670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 29/59] fix: invalidate the snapshot file of a failed
 checkpoint before its dual write stops

---
 engines/default/chkpt_snapshot.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index e5a1750..e3eb19c 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -433,6 +433,16 @@ static bool do_snapshot_action(snapshot_st *ss)
          * We continue the scan.
          */
     }
+    if (!snapshot_done && ss->mode == CHKPT_SNAPSHOT_MODE_CHKPT) {
+        /* The done mark might have been written. The failed snapshot must not be
+         * valid any longer after the dual write stops.
+         */
+        if (ftruncate(ss->file.fd, 0) < 0 || fsync(ss->file.fd) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "Failed to invalidate the snapshot file. path=%s err=%s\n",
+                        ss->file.path, strerror(errno));
+        }
+    }
     item_scan_close(&scan, cb_scan_close, snapshot_done);
 
 done:
-- 
2.43.0


From 583ab94e5a933041bdeb353638a96c35bd34d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 30/59] fix: commit the remaining waiters before the group
 commit thread stops

Shutdown aborted if updates were waiting for group commit at that time.
---
 engines/default/cmdlogmgr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 048fa15..fdcedc4 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -287,7 +287,7 @@ static void *do_cmdlog_gcommit_thread_main(void *arg)
 
     gcommit->running = RUNNING_STARTED;
     while (1) {
-        if (gcommit->reqstop) {
+        if (gcommit->reqstop && gcommit->wait_cnt == 0) {
             logger->log(EXTENSION_LOG_INFO, NULL,
                         "Group commit thread recognized stop request.\n");
             break;
@@ -513,6 +513,8 @@ void cmdlog_mgr_final(void)
 {
     chkpt_thread_stop();
     cmdlog_buf_flush_thread_stop();
+    /* flush the remaining log records so that their waiters can be committed */
+    cmdlog_buff_flush_all();
     do_cmdlog_gcommit_thread_stop();
 
     /* CONSIDER: do last checkpoint before shutdown engine. */
-- 
2.43.0


From 8cb247e270ad2ac6f3b93939a33c468bf980c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 31/59] fix: return the memory blocks of connections when a
 worker thread stops

Shutdown aborted if a connection was receiving the keys or fields of a command.
---
 thread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thread.c b/thread.c
index 7478341..34703e9 100644
--- a/thread.c
+++ b/thread.c
@@ -298,6 +298,10 @@ static void *worker_libevent(void *arg)
     conn = me->conn_list;
     while (conn) {
         close(conn->sfd);
+        if (conn->coll_strkeys != NULL) { /* keys or fields being received */
+            mblck_list_free(&me->mblck_pool, &conn->memblist);
+            conn->coll_strkeys = NULL;
+        }
         conn = conn->conn_next;
     }
     item = cq_pop(me->new_conn_queue);
-- 
2.43.0


From 770f4fce616d443cde9f017ab6f720e15a2cd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 32/59] fix: count the deletes of binary clients in the
 statistics

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index e0d173b..2b6a0c2 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7562,18 +7562,23 @@ static void process_bin_delete(conn *c)
     switch (ret) {
     case ENGINE_SUCCESS:
         write_bin_response(c, NULL, 0, 0, 0);
+        STATS_HITS(c, delete, key, nkey);
         break;
     case ENGINE_KEY_EEXISTS:
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_EEXISTS, 0);
+        STATS_CMD_NOKEY(c, delete);
         break;
     case ENGINE_KEY_ENOENT:
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
+        STATS_MISSES(c, delete, key, nkey);
         break;
     case ENGINE_NOT_MY_VBUCKET:
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_NOT_MY_VBUCKET, 0);
+        STATS_CMD_NOKEY(c, delete);
         break;
     default:
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, 0);
+        STATS_CMD_NOKEY(c, delete);
     }
 }
 
-- 
2.43.0


From 393db92628d54d02ca882e3c17c6568bd03a14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 33/59] fix: keep the notify pipes of the workers open until
 the engine is destroyed

---
 memcached.c | 1 +
 thread.c    | 5 +++++
 thread.h    | 1 +
 3 files changed, 7 insertions(+)

diff --git a/memcached.c b/memcached.c
index 2b6a0c2..7d8b7d0 100644
--- a/memcached.c
+++ b/memcached.c
@@ -16412,6 +16412,7 @@ int main (int argc, char **argv)
 #endif
 
     mc_engine.v1->destroy(mc_engine.v0);
+    threads_close_notify();
     mc_logger->log(EXTENSION_LOG_INFO, NULL, "Memcached engine destroyed.\n");
 
 #ifdef ENABLE_ZK_INTEGRATION
diff --git a/thread.c b/thread.c
index 34703e9..e2c9807 100644
--- a/thread.c
+++ b/thread.c
@@ -1058,6 +1058,11 @@ void threads_shutdown(void)
         }
         pthread_join(thread_ids[ii], NULL);
     }
+}
+
+/* The engine may call notify_io_complete() until it is destroyed. */
+void threads_close_notify(void)
+{
     for (int ii = 0; ii < nthreads; ++ii) {
         close(threads[ii].notify_send_fd);
         close(threads[ii].notify_receive_fd);
diff --git a/thread.h b/thread.h
index 9aece4d..602dbe9 100644
--- a/thread.h
+++ b/thread.h
@@ -228,4 +228,5 @@ void threadlocal_stats_aggregate(struct thread_stats *thread_stats, struct threa
 
 void thread_init(int nthreads, struct event_base *main_base);
 void threads_shutdown(void);
+void threads_close_notify(void);
 #endif
-- 
2.43.0


From 7b3c705f665fc8ae8f00e385abb6ee2cf979eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 34/59] simulation hook: hash table sizes (ARCUS_SIM only)

---
 engines/default/assoc.c  | 5 +++++
 engines/default/prefix.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/engines/default/assoc.c b/engines/default/assoc.c
index 5f68213..c68f63e 100644
--- a/engines/default/assoc.c
+++ b/engines/default/assoc.c
@@ -66,6 +66,11 @@ ENGINE_ERROR_CODE assoc_init(struct default_engine *engine)
     logger = engine->server.log->get_logger();
 
     assocp->hashpower = 16; /* (1<<16) => 64K hash size */
+#ifdef ARCUS_SIM
+    /* simulation hook: the initial table size is chosen by the simulator */
+    extern uint32_t arcus_sim_hash_power;
+    assocp->hashpower = arcus_sim_hash_power;
+#endif
     assocp->hashsize = hashsize(assocp->hashpower);
     assocp->hashmask = hashmask(assocp->hashpower);
     assocp->rootpower = 0; /* (1<<0) => 1 hash table */
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index bd6da5b..f92d19c 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -30,7 +30,13 @@
 #define hashsize(n) ((uint32_t)1<<(n))
 #define hashmask(n) (hashsize(n)-1)
 
+#ifdef ARCUS_SIM
+/* simulation hook: the table size is chosen by the simulator */
+extern uint32_t arcus_sim_prefix_hash_power;
+#define DEFAULT_PREFIX_HASHPOWER arcus_sim_prefix_hash_power
+#else
 #define DEFAULT_PREFIX_HASHPOWER 10
+#endif
 #define DEFAULT_PREFIX_MAX_DEPTH 1
 
 typedef struct {
-- 
2.43.0


From 58d358de6b109d7e02a6c5fcede3840747340752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 35/59] fix: an escaped glob character in a scan pattern
 matches only itself

---
 util.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/util.c b/util.c
index f4e4109..6a2f9fa 100644
--- a/util.c
+++ b/util.c
@@ -300,25 +300,24 @@ bool string_pattern_match(const char *text, int text_len, const char *pattern, i
     int plen_backup = 0;
     while (text_len)
     {
-        if (*pattern == '\\' && *(pattern+1) == *text) {
-            text++;
-            pattern += 2;
-            text_len--;
-            pattern_len -= 2;
-        }
-        else if (*pattern == '*') {
+        /* a backslash and the character that it escapes are matched together */
+        int unit = (pattern_len > 1 && *pattern == '\\') ? 2 : 1;
+
+        if (pattern_len > 0 && *pattern == '*') {
             /* new star-loop: backup positions in pattern and text. */
             text_backup = text;
             patt_backup = ++pattern;
             tlen_backup = text_len;
             plen_backup = --pattern_len;
         }
-        else if (*pattern == '?' || *pattern == *text) {
+        else if (pattern_len > 0 &&
+                 (unit == 2 ? *(pattern+1) == *text
+                            : (*pattern == '?' || *pattern == *text))) {
             /* ? match any character or match the current non-NULL character */
             text++;
-            pattern++;
+            pattern += unit;
             text_len--;
-            pattern_len--;
+            pattern_len -= unit;
         }
         else {
             /* if no stars we fail to match */
-- 
2.43.0


From 72fc4d38f74bd509f6608b7585c81cb624a519ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 36/59] fix: stop a scan page that has already found more items
 than requested

With a count above 200 the second and later rounds of a page computed the
remaining count as an unsigned difference, which wrapped around when a hash
chain had made an earlier round exceed it: the next round then asked for more
items than the array could hold and the server aborted. When the difference
was zero, the page spun until its time limit.
---
 engines/default/default_engine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index f215324..b436195 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1279,7 +1279,7 @@ default_prefixscan(const char cursor[], const uint32_t count, const char *patter
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = prefix_scan_direct(cursor, iter_count,
@@ -1340,7 +1340,7 @@ default_keyscan(const char cursor[], const uint32_t count, const char *pattern,
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = item_scan_direct(cursor, type, iter_count,
-- 
2.43.0


From ba856aedc473c491c6f5af8ac5d346ce42218972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 37/59] fix: item sizes below 256 KB do not corrupt the heap

---
 engines/default/slabs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/default/slabs.c b/engines/default/slabs.c
index b6fcb05..a2f5d4b 100644
--- a/engines/default/slabs.c
+++ b/engines/default/slabs.c
@@ -354,6 +354,9 @@ static int do_smmgr_init(void)
     slabclass_t *p = &slabsp->slabclass[0];
     p->size = SM_BLOCK_SIZE;
     p->perslab = config->item_size_max / p->size;
+    if (p->perslab < 1) {
+        p->perslab = 1; /* item_size_max is smaller than a sm block */
+    }
     p->rsvd_slabs = 0; // undefined
 
     return 0;
-- 
2.43.0


From 21c9d696f297fb6a0d76b9b66daf9a7cbb021a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 38/59] fix: count out a connection that could not be set up
 for lack of memory

---
 thread.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thread.c b/thread.c
index e2c9807..9b9c24b 100644
--- a/thread.c
+++ b/thread.c
@@ -358,7 +358,7 @@ static void thread_libevent_process(int fd, short which, void *arg)
                     mc_logger->log(EXTENSION_LOG_INFO, NULL,
                             "Can't listen for events on fd %d\n", item->sfd);
                 }
-                close(item->sfd);
+                safe_close(item->sfd);
             }
         } else {
             assert(c->thread == NULL);
@@ -613,7 +613,11 @@ void dispatch_conn_new(int sfd, STATE_FUNC init_state, int event_flags,
 {
     CQ_ITEM *item = cqi_new();
     if (item == NULL) {
-        close(sfd);
+        if (IS_UDP(transport)) {
+            close(sfd);
+        } else {
+            safe_close(sfd);
+        }
         mc_logger->log(EXTENSION_LOG_WARNING, NULL,
                        "Failed to allocate memory for connection object.\n");
         return;
-- 
2.43.0


From fdee9f6d569263259a6a3ded134a4e7abf6ae066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 39/59] fix: do not answer an executed binary request when
 reading the next one runs out of memory

---
 memcached.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcached.c b/memcached.c
index 7d8b7d0..b869e7b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -13961,6 +13961,8 @@ static enum try_read_result try_read_network(conn *c)
                 }
                 c->rbytes = 0; /* ignore what we read */
                 if (c->protocol == binary_prot) {
+                    /* not the answer to the last request, whose header is kept */
+                    memset(&c->binary_header, 0, sizeof(c->binary_header));
                     write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_ENOMEM, 0);
                 } else {
                     out_string(c, "SERVER_ERROR out of memory reading request");
-- 
2.43.0


From a40dea4e8b74f4771313137e0c43ae80fbf03957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 40/59] sim hook: sizes of the command log buffer and files

---
 cmdlog.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmdlog.c b/cmdlog.c
index 6517fd9..1187b24 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -34,6 +34,17 @@
 
 #define CMDLOG_FILE_MAXSIZE (10 * 1024 * 1024)   /* 10MB : log at most CMDLOG_INPUT_SIZE * N commands in one file */
 #define CMDLOG_FILE_MAXNUM   10                  /* # of cmdlog files */
+#ifdef ARCUS_SIM /* deterministic simulation: small buffer and files */
+extern uint32_t arcus_sim_cmdlog_input_buffer_size;
+extern uint32_t arcus_sim_cmdlog_input_write_size;
+extern int      arcus_sim_cmdlog_input_file_size;
+#undef  CMDLOG_BUFFER_SIZE
+#define CMDLOG_BUFFER_SIZE  arcus_sim_cmdlog_input_buffer_size
+#undef  CMDLOG_WRITE_SIZE
+#define CMDLOG_WRITE_SIZE   arcus_sim_cmdlog_input_write_size
+#undef  CMDLOG_FILE_MAXSIZE
+#define CMDLOG_FILE_MAXSIZE arcus_sim_cmdlog_input_file_size
+#endif
 #define CMDLOG_DIRPATH_LENGTH  128               /* directory path's length */
 #define CMDLOG_FILENAME_LENGTH CMDLOG_DIRPATH_LENGTH + 128
 #define CMDLOG_FILENAME_FORMAT "%s/command_%d_%d_%d_%d.log"
-- 
2.43.0


From 0093d22b6bd81b241efcd6c6c7d5c43605f584d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 41/59] fix: skip a command, do not abort, when the command log
 buffer is full from its start

---
 cmdlog.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index 1187b24..df309fd 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -427,15 +427,19 @@ void cmdlog_write(char *client_ip, char *command)
 
     pthread_mutex_lock(&buffer->lock);
     cmdlog.stats.entered_commands += 1;
-    if (buffer->head <= buffer->tail && inputlen >= (buffer->size - buffer->tail)) {
+    if (buffer->head > 0 && buffer->head <= buffer->tail &&
+        inputlen >= (buffer->size - buffer->tail)) {
         buffer->last = buffer->tail;
         buffer->tail = 0;
     }
     if (buffer->head <= buffer->tail) {
         assert(buffer->last == 0);
-        assert(inputlen < (buffer->size - buffer->tail));
-        memcpy(buffer->data + buffer->tail, inputstr, inputlen);
-        buffer->tail += inputlen;
+        if (inputlen < (buffer->size - buffer->tail)) {
+            memcpy(buffer->data + buffer->tail, inputstr, inputlen);
+            buffer->tail += inputlen;
+        } else { /* the buffer is full and nothing of it has been flushed yet */
+            cmdlog.stats.skipped_commands += 1;
+        }
         if ((buffer->tail - buffer->head) >= CMDLOG_WRITE_SIZE) {
             do_cmdlog_flush_wakeup(); /* wake up flush thread */
         }
-- 
2.43.0


From 237cf71ec4eec1bca525f972c77747a999e782f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 42/59] fix: go on when the command log buffer wraps with
 nothing left before the wrap

---
 cmdlog.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index df309fd..c46b2c3 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -213,11 +213,12 @@ static void *cmdlog_flush_thread(void *arg)
                     stop_state = CMDLOG_FLUSHERR_STOP; break;
                 }
                 nwtotal += nwritten;
-                pthread_mutex_lock(&buffer->lock);
-                buffer->last = 0;
-                buffer->head = 0;
-                pthread_mutex_unlock(&buffer->lock);
             }
+            /* nothing may be left in front of the wrap: go on from the start all the same */
+            pthread_mutex_lock(&buffer->lock);
+            buffer->last = 0;
+            buffer->head = 0;
+            pthread_mutex_unlock(&buffer->lock);
         }
         if (nwtotal >= CMDLOG_FILE_MAXSIZE) { /* rotate file */
             close(fd); fd = -1;
-- 
2.43.0


From aa4d51091b66ea2cf2460166101ab9ef6411be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 43/59] fix: end a command log record that is exactly one byte
 too long with a newline

---
 cmdlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index c46b2c3..6ed10c3 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -419,7 +419,7 @@ void cmdlog_write(char *client_ip, char *command)
     nwritten = snprintf(inputstr, CMDLOG_INPUT_SIZE, "%02d:%02d:%02d.%06ld %s %s\n",
                        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, (long)val.tv_usec, client_ip, command);
     /* truncated ? */
-    if (nwritten > CMDLOG_INPUT_SIZE) {
+    if (nwritten >= CMDLOG_INPUT_SIZE) {
         inputstr[CMDLOG_INPUT_SIZE-4] = '.';
         inputstr[CMDLOG_INPUT_SIZE-3] = '.';
         inputstr[CMDLOG_INPUT_SIZE-2] = '\n';
-- 
2.43.0


From 584e75879bf86d059fa7c69198c648bd03abe239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 44/59] fix: do not stop flushing the command log on a tail
 taken before the stop

---
 cmdlog.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 6ed10c3..3a464fc 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -154,6 +154,7 @@ static void *cmdlog_flush_thread(void *arg)
     int writelen;
     int nwritten;
     int nwtotal = 0;
+    bool in_use;
 
     while (!cmdlog.reqstop)
     {
@@ -169,6 +170,8 @@ static void *cmdlog_flush_thread(void *arg)
             cmdlog.stats.file_count++;
         }
 
+        /* look before taking the tail: what was logged before the stop must be flushed */
+        in_use = cmdlog_in_use;
         pthread_mutex_lock(&buffer->lock);
         cur_last = buffer->last;
         cur_tail = buffer->tail;
@@ -176,7 +179,7 @@ static void *cmdlog_flush_thread(void *arg)
 
         if (buffer->head <= cur_tail) {
             assert(cur_last == 0);
-            if (cmdlog_in_use) {
+            if (in_use) {
                 if ((cur_tail - buffer->head) < CMDLOG_WRITE_SIZE) {
                     do_cmdlog_flush_sleep(); /* flush thread sleeps 50ms. */
                     continue;
-- 
2.43.0


From 8e1cb9f53d3b81d6deda85d8d77acc756bbdd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 45/59] fix: use localtime_r where several threads record times

---
 cmdlog.c                 | 6 +++---
 engines/default/prefix.c | 4 ++--
 lqdetect.c               | 6 +++---
 util.c                   | 9 ++++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index 3a464fc..4563ef9 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -409,7 +409,7 @@ char *cmdlog_stats(void)
 
 void cmdlog_write(char *client_ip, char *command)
 {
-    struct tm *ptm;
+    struct tm tmval;
     struct timeval val;
     struct cmd_log_buffer *buffer = &cmdlog.buffer;
     char inputstr[CMDLOG_INPUT_SIZE];
@@ -417,10 +417,10 @@ void cmdlog_write(char *client_ip, char *command)
     int nwritten;
 
     gettimeofday(&val, NULL);
-    ptm = localtime(&val.tv_sec);
+    localtime_r(&val.tv_sec, &tmval);
 
     nwritten = snprintf(inputstr, CMDLOG_INPUT_SIZE, "%02d:%02d:%02d.%06ld %s %s\n",
-                       ptm->tm_hour, ptm->tm_min, ptm->tm_sec, (long)val.tv_usec, client_ip, command);
+                       tmval.tm_hour, tmval.tm_min, tmval.tm_sec, (long)val.tv_usec, client_ip, command);
     /* truncated ? */
     if (nwritten >= CMDLOG_INPUT_SIZE) {
         inputstr[CMDLOG_INPUT_SIZE-4] = '.';
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index f92d19c..3ba0e69 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -555,8 +555,8 @@ static int _prefix_stats_write_buffer(char *buffer, const size_t buflen,
                                        const bool inclusive) {
 
     int ret = 0;
-    struct tm *t;
-    t = localtime(&pt->create_time);
+    struct tm tmval;
+    struct tm *t = localtime_r(&pt->create_time, &tmval);
     if (inclusive) {
 #ifdef NESTED_PREFIX
         ret = snprintf(buffer, buflen, format,
diff --git a/lqdetect.c b/lqdetect.c
index 57ce511..a9be7bf 100644
--- a/lqdetect.c
+++ b/lqdetect.c
@@ -120,7 +120,7 @@ static bool is_command_duplicated(char *key, enum lq_detect_command cmd, struct
 static void do_lqdetect_write(char *client_ip, char *key,
                               enum lq_detect_command cmd, struct lq_detect_argument *arg)
 {
-    struct   tm *ptm;
+    struct   tm tmval;
     struct   timeval val;
     struct   lq_detect_buffer *buffer = &lqdetect.buffer[cmd];
     uint32_t nsaved = buffer->nsaved;
@@ -140,11 +140,11 @@ static void do_lqdetect_write(char *client_ip, char *key,
     }
 
     gettimeofday(&val, NULL);
-    ptm = localtime(&val.tv_sec);
+    localtime_r(&val.tv_sec, &tmval);
 
     snprintf(buffer->data + buffer->offset, length - buffer->offset,
              "%02d:%02d:%02d.%06ld %s <%u> %s %s %s\n",
-             ptm->tm_hour, ptm->tm_min, ptm->tm_sec, (long)val.tv_usec,
+             tmval.tm_hour, tmval.tm_min, tmval.tm_sec, (long)val.tv_usec,
              client_ip, arg->overhead, command_str[cmd], keyptr, arg->query);
     buffer->offset += strlen(buffer->data + buffer->offset);
     lqdetect.arg[cmd][nsaved] = *arg;
diff --git a/util.c b/util.c
index 6a2f9fa..efdbb0f 100644
--- a/util.c
+++ b/util.c
@@ -248,7 +248,8 @@ int64_t getnowdatetime_int(void)
     char buf[24] = {0};
     int64_t res;
     time_t clock = time(0);
-    struct tm *lctime = localtime(&clock);
+    struct tm tmval;
+    struct tm *lctime = localtime_r(&clock, &tmval);
 
     /* year(YYYY) month(01-12) day(01-31) hour(00-23) minute(00-59) second(00-61). */
     strftime(buf, 24, "%Y%m%d%H%M%S", lctime);
@@ -262,7 +263,8 @@ int getnowdate_int(void)
     char buf[16] = {0};
     int res;
     time_t clock = time(0);
-    struct tm *lctime = localtime(&clock);
+    struct tm tmval;
+    struct tm *lctime = localtime_r(&clock, &tmval);
 
     /* year(YYYY) month(01-12) day(01-31). */
     strftime(buf, 16, "%Y%m%d", lctime);
@@ -276,7 +278,8 @@ int getnowtime_int(void)
     char buf[8] = {0};
     int res;
     time_t clock = time(0);
-    struct tm *lctime = localtime(&clock);
+    struct tm tmval;
+    struct tm *lctime = localtime_r(&clock, &tmval);
 
     /* hour(00-23) minute(00-59) second(00-61). */
     strftime(buf, 8, "%H%M%S", lctime);
-- 
2.43.0


From 284acb0e81f26e5c13a090547b97a7eaff4a85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 46/59] fix: keep a copy of the prefix that a key dump is
 restricted to

---
 engines/default/default_engine.h |  2 +-
 engines/default/items.c          | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index c67e7a8..195a8f0 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -128,7 +128,7 @@ struct engine_dumper {
    time_t          started; /* dump start time */
    time_t          stopped; /* dump stop time */
    char            filepath[MAX_FILEPATH_LENGTH]; /* dump file path */
-   char           *prefix;  /* prefix of keys for dumping */
+   char            prefix[UINT8_MAX+1]; /* prefix of keys for dumping */
    int             nprefix;
 };
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 88a2b87..a5e6df3 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1583,9 +1583,19 @@ ENGINE_ERROR_CODE item_dump_start(struct default_engine *engine,
             ret = ENGINE_FAILED; break;
         }
 
+        if (nprefix > 0 && (size_t)nprefix >= sizeof(dumper->prefix)) {
+            logger->log(EXTENSION_LOG_INFO, NULL,
+                        "Failed to start dumping. Too long prefix.\n");
+            ret = ENGINE_FAILED; break;
+        }
+
         snprintf(dumper->filepath, MAX_FILEPATH_LENGTH-1, "%s",
                 (filepath != NULL ? filepath : "arcus_dump.txt"));
-        dumper->prefix = (char*)prefix;
+        /* The dump outlives the request which the prefix belongs to. */
+        if (nprefix > 0) {
+            memcpy(dumper->prefix, prefix, nprefix);
+            dumper->prefix[nprefix] = '\0';
+        }
         dumper->nprefix = nprefix;
         dumper->mode = mode;
         dumper->started = time(NULL);
-- 
2.43.0


From b15c96d7e4540ec32eda4922d3b12c4cadd69182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 47/59] fix: release the items of a retrieval that ends in an
 error string

---
 memcached.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcached.c b/memcached.c
index b869e7b..29bd7c3 100644
--- a/memcached.c
+++ b/memcached.c
@@ -14489,6 +14489,21 @@ bool conn_mwrite(conn *c)
                 conn_set_state(c, conn_new_cmd);
             }
         } else if (c->state == conn_write) {
+            /* An error string can be sent instead of the response of
+             * a multi key retrieval that has saved some items already.
+             */
+            while (c->ileft > 0) {
+                item *it = *(c->icurr);
+                mc_engine.v1->release(mc_engine.v0, c, it);
+                c->icurr++;
+                c->ileft--;
+            }
+            while (c->suffixleft > 0) {
+                char *suffix = *(c->suffixcurr);
+                cache_free(c->thread->suffix_cache, suffix);
+                c->suffixcurr++;
+                c->suffixleft--;
+            }
             if (c->write_and_free) {
                 free(c->write_and_free);
                 c->write_and_free = 0;
-- 
2.43.0


From 9af521b172fa771c7ff1ce7dfdc478ade5aae22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 48/59] fix: do not take a lock in the termination signal
 handler

---
 memcached.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/memcached.c b/memcached.c
index 29bd7c3..d070db5 100644
--- a/memcached.c
+++ b/memcached.c
@@ -87,7 +87,6 @@ void UNLOCK_SETTING(void) {
     pthread_mutex_unlock(&setting_lock);
 }
 
-static pthread_mutex_t shutdown_lock = PTHREAD_MUTEX_INITIALIZER;
 volatile sig_atomic_t memcached_shutdown=0;
 volatile int32_t shutdown_delay=0;
 volatile bool dynamic_shutdown=false;
@@ -10445,6 +10444,12 @@ static void process_sasl_command(conn *c, token_t *tokens, const size_t ntokens)
 #endif
 #endif
 
+/* This is also called by a signal handler. So, it must not take a lock. */
+static void start_shutdown(void)
+{
+    (void)__sync_bool_compare_and_swap(&memcached_shutdown, 0, 1);
+}
+
 static void process_shutdown_command(conn *c, token_t *tokens, size_t ntokens)
 {
     int32_t delay;
@@ -10479,11 +10484,7 @@ static void process_shutdown_command(conn *c, token_t *tokens, size_t ntokens)
     mc_logger->log(EXTENSION_LOG_WARNING, c,
                    "shutdown scheduled (time=%d, dynamic=%d)\n", (int)delay, dynamic_shutdown);
     shutdown_delay = delay * 1000;
-    pthread_mutex_lock(&shutdown_lock);
-    if (memcached_shutdown == 0) {
-        memcached_shutdown = 1;
-    }
-    pthread_mutex_unlock(&shutdown_lock);
+    start_shutdown();
     out_string(c, "OK");
 }
 
@@ -15087,11 +15088,7 @@ static void shutdown_server(void)
 {
     shutdown_delay = 0;
     dynamic_shutdown = false;
-    pthread_mutex_lock(&shutdown_lock);
-    if (memcached_shutdown == 0) {
-        memcached_shutdown = 1;
-    }
-    pthread_mutex_unlock(&shutdown_lock);
+    start_shutdown();
 }
 
 static void sigterm_handler(int sig)
@@ -16405,9 +16402,7 @@ int main (int argc, char **argv)
     }
 
     /* 5) shutdown all threads */
-    pthread_mutex_lock(&shutdown_lock);
     memcached_shutdown = 2;
-    pthread_mutex_unlock(&shutdown_lock);
     threads_shutdown();
     release_independent_stats(default_thread_stats);
     if (default_topkeys) {
-- 
2.43.0


From 5033fca7e59f687643c2956ac2860afb2538cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 49/59] fix: prepare enough free node items when a membership
 change replaces nodes

do_node_free_list_prepare() counted the nodes of the current hash ring as
available, but they are released only after the new ring is built, so a
change that replaced many members at once aborted on assert(item != NULL).
---
 cluster_config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cluster_config.c b/cluster_config.c
index 476e28d..7d37c10 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -205,9 +205,12 @@ static int do_node_free_list_prepare(struct cluster_config *config, uint32_t cou
     struct node_item *item;
     int rc = 0;
 
-    if ((config->free_size + config->num_nodes) < count) {
+    /* The nodes in use stay in use until the new hash ring replaces
+     * the old one.  So, they cannot be counted as free nodes.
+     */
+    if (config->free_size < count) {
         /* We need to grow the free node list */
-        int addition = count - (config->free_size + config->num_nodes);
+        int addition = count - config->free_size;
         for (int i = 0; i < addition; i++) {
             item = (struct node_item *)malloc(sizeof(struct node_item));
             if (item == NULL) {
-- 
2.43.0


From 294c5a78f0b891910192b21cfe3250c29b19552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 50/59] fix: do not let a key lookup see a hash ring that is
 half renumbered

do_continuum_build() set new node indexes in hash slices that the current
ring shares before the ring was replaced, without ketama_lock. A stale
scrub running at that moment took the node's own keys for others' and
removed them.
---
 cluster_config.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cluster_config.c b/cluster_config.c
index 7d37c10..9ed80b5 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -493,15 +493,21 @@ static void do_continuum_print(struct cluster_config *config)
 /*
  * Hash Ring management
  */
-static void do_hashring_replace(struct cluster_config *config, struct cont_item **continuum,
+static void do_hashring_replace(struct cluster_config *config,
                                 struct node_item **nodearray, uint32_t num_nodes, int self_id)
 {
     assert((void*)nodearray == config->old_memory);
+    struct cont_item **continuum;
     void    *tmp_memory;
     uint32_t tmp_memlen;
     uint32_t old_num_nodes;
 
     pthread_mutex_lock(&config->ketama_lock);
+    /* build continuum. The node index of hash slices that the current
+     * hash ring shares is changed, so that ketama_lock must be held.
+     */
+    continuum = do_continuum_build(config, nodearray, num_nodes);
+
     /* save old hash ring info */
     tmp_memory = config->cur_memory;
     tmp_memlen = config->cur_memlen;
@@ -623,7 +629,6 @@ int cluster_config_reconfigure(struct cluster_config *config,
 {
     assert(config);
     struct node_item **nodearray;
-    struct cont_item **continuum;
     int self_id;
     int error=0;
 
@@ -632,11 +637,10 @@ int cluster_config_reconfigure(struct cluster_config *config,
                             "reconfiguration: empty cluster...\n");
         pthread_mutex_lock(&config->config_lock);
         nodearray = (struct node_item **)config->old_memory;
-        continuum = (struct cont_item **)nodearray;
         self_id = -1;
         if (num_added) *num_added = 0;
         if (num_removed) *num_removed = config->num_nodes;
-        do_hashring_replace(config, continuum, nodearray, num_nodes, self_id);
+        do_hashring_replace(config, nodearray, num_nodes, self_id);
         pthread_mutex_unlock(&config->config_lock);
         return 0;
     }
@@ -658,10 +662,8 @@ int cluster_config_reconfigure(struct cluster_config *config,
             config->is_valid = false;
         }
     } else {
-        /* build continuuum */
-        continuum = do_continuum_build(config, nodearray, num_nodes);
-        /* replace hash ring */
-        do_hashring_replace(config, continuum, nodearray, num_nodes, self_id);
+        /* build continuum and replace hash ring */
+        do_hashring_replace(config, nodearray, num_nodes, self_id);
     }
     pthread_mutex_unlock(&config->config_lock);
 
-- 
2.43.0


From 5591f1952e716aa89e115781c01762b48afe2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 51/59] fix: bound the wait for the ZooKeeper threads at
 shutdown

The loop never slept nor advanced its time while a thread was running, so
it span holding zk_lock; the state thread, which takes that lock before it
can end, never ended, and the process hung.
---
 arcus_zk.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/arcus_zk.c b/arcus_zk.c
index fd97390..11f50a9 100644
--- a/arcus_zk.c
+++ b/arcus_zk.c
@@ -1616,13 +1616,10 @@ void arcus_zk_final(const char *msg)
         sm_wakeup(false);
 
         /* wait a maximum of 1000 msec */
-        int elapsed_msec = 0;
-        while (elapsed_msec <= 1000) {
-            if (elapsed_msec == 0) {
-                /* the first check: go below */
-            } else {
+        int elapsed_msec;
+        for (elapsed_msec = 0; elapsed_msec <= 1000; elapsed_msec += 10) {
+            if (elapsed_msec > 0) {
                 usleep(10000); // 10ms wait
-                elapsed_msec += 10;
             }
             /* Do not call zookeeper_close (arcus_exit) and zoo_wget_children at
              * the same time.  Otherwise, this thread (main thread) and the watcher
-- 
2.43.0


From 638a0ed5e1329e238ec3f2fcf0b645e8c479330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 52/59] sim: let the simulator choose the node sizes of
 collections (ARCUS_SIM only)

---
 engines/default/item_base.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 48d881a..132dd3a 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -303,6 +303,18 @@ typedef struct _btree_indx_node {
     uint32_t ecnt[BTREE_ITEM_COUNT];
 } btree_indx_node;
 
+#ifdef ARCUS_SIM
+/* nodes that hold fewer elements, for deeper structures of as many elements */
+extern int arcus_sim_hashchain_size;
+extern int arcus_sim_btree_item_count;
+#undef SET_MAX_HASHCHAIN_SIZE
+#undef MAP_MAX_HASHCHAIN_SIZE
+#undef BTREE_ITEM_COUNT
+#define SET_MAX_HASHCHAIN_SIZE arcus_sim_hashchain_size
+#define MAP_MAX_HASHCHAIN_SIZE arcus_sim_hashchain_size
+#define BTREE_ITEM_COUNT       arcus_sim_btree_item_count
+#endif
+
 typedef struct _btree_meta_info {
     int32_t  mcnt;      /* maximum count */
     int32_t  ccnt;      /* current count */
-- 
2.43.0


From a9c144b15088b0c8e898c6cb85f14d3d5ba58ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:10 +0000
Subject: [PATCH 53/59] fix: do not truncate the summary of a key dump with a
 long prefix

256 bytes do not hold the summary of a prefix of more than about 190
bytes, and gcc refuses the snprintf with -Werror=format-truncation.
---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index a5e6df3..d0f2f67 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1512,7 +1512,7 @@ static void *item_dumper_main(void *arg)
     item_scan_close(&scan, NULL, (ret==0));
 
     if (ret == 0) {
-        int summary_length = 256; /* just, enough memory space size */
+        int summary_length = 512; /* enough for the longest prefix */
         if ((cur_buflen + summary_length) > max_buflen) {
             nwritten = write(fd, dump_buffer, cur_buflen);
             if (nwritten != cur_buflen) {
-- 
2.43.0


From d7c667c15a5c8c9399b390d2b4a6b80c9495a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:51 +0000
Subject: [PATCH 54/59] fix: accept well-formed binary flush_prefix requests

---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index d070db5..2bd50db 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7042,7 +7042,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
-        if (keylen > 0 && bodylen == extlen && (extlen == 0 || extlen == 4)) {
+        if (keylen > 0 && bodylen == (keylen + extlen) && (extlen == 0 || extlen == 4)) {
             bin_read_key(c, bin_read_flush_prefix_exptime, extlen);
         } else {
             protocol_error = 1;
-- 
2.43.0


From f9f7e8306716ac27a47fe8f8e1492bb89fc0f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:08 +0000
Subject: [PATCH 55/59] fix: do not use the zk handle after the shutdown closed
 it

arcus_zk_final() waits one second for the SM state thread and then closes
the ZK handle, which aborts a call the SM thread is blocked in.  If that
call was the one reading the ZK config, the SM thread went on to read the
cache list with the closed handle.
---
 arcus_zk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arcus_zk.c b/arcus_zk.c
index 11f50a9..ba248a0 100644
--- a/arcus_zk.c
+++ b/arcus_zk.c
@@ -1930,6 +1930,8 @@ static void *sm_state_thread(void *arg)
 #ifdef ENABLE_ZK_RECONFIG
         if (smreq.update_zkconfig) {
             sm_reload_ZK_config(main_zk->zh, &sm_retry_ms);
+            if (arcus_zk_shutdown)
+                break; /* arcus_zk_final() has closed the zk handle */
         }
 #endif
 
-- 
2.43.0


From fe2143afecc38df3dd8be17211b222dac984a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 56/59] fix: retry a membership change whose hash ring could
 not be built

When the memory for the new hash ring could not be allocated, the node
said it would check later, but kept the old hash ring (and did not notice
the removal of its own znode) until the next membership change.  And if
the list was then the same as the old one, the hash ring stayed invalid.
---
 arcus_zk.c       | 4 ++++
 cluster_config.c | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/arcus_zk.c b/arcus_zk.c
index ba248a0..3438208 100644
--- a/arcus_zk.c
+++ b/arcus_zk.c
@@ -1149,6 +1149,10 @@ static int sm_reload_cache_list_znode(zhandle_t *zh, int *retry_ms)
                                   &num_added, &num_removed) != 0) {
             arcus_conf.logger->log(EXTENSION_LOG_WARNING, NULL,
                     "Failed to update cluster config. Will check later.\n");
+            sm_set_retry_ms(retry_ms, 1000); /* Do retry */
+            sm_lock();
+            sm_info.request.update_cache_list = true;
+            sm_unlock();
         } else { /* cluster config is updated */
             if (arcus_conf.znode_created && !check_my_znode_existence()) {
                 znode_deleted = true;
diff --git a/cluster_config.c b/cluster_config.c
index 9ed80b5..8e02988 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -432,7 +432,8 @@ do_nodearray_build_for_replace(struct cluster_config *config,
     if (num_added) *num_added = num_nodes - nfound;
     if (num_removed) *num_removed = config->num_nodes - nfound;
 
-    if (num_nodes == config->num_nodes && num_nodes == nfound) {
+    if (config->is_valid &&
+        num_nodes == config->num_nodes && num_nodes == nfound) {
         do_nodearray_release(config, array, num_nodes);
         return NULL;
     }
-- 
2.43.0


From d918970b6ad31a494d3262eb0d36bc7aa305c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:38 +0000
Subject: [PATCH 57/59] fix: binary bop update that keeps the eflag no longer
 overruns the connection

A neflag of EFLAG_NULL (no change of the eflag) was taken for a length:
255 bytes were copied over the 31 byte field and the rest of the connection
structure. Check the lengths in binary bop insert, bop update and setattr
requests, and accept a bop update without a value, whose value was
required but never read.
---
 memcached.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 2bd50db..653118f 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5494,6 +5494,11 @@ static void process_bin_bop_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_insert* req = binary_get_request(c);
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        req->message.body.neflag > MAX_EFLAG_LENG) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5723,6 +5728,14 @@ static void process_bin_bop_update_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_update* req = binary_get_request(c);
+    /* a request has a value unless it says that it has none */
+    if (req->message.body.nbkey > MAX_BKEY_LENG ||
+        (req->message.body.neflag > MAX_EFLAG_LENG &&
+         req->message.body.neflag != EFLAG_NULL) ||
+        (req->message.body.novalue != 0) != (vlen == 0)) {
+        handle_binary_protocol_error(c);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5741,7 +5754,8 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     c->coll_eupdate.offset = req->message.body.offset;
     c->coll_eupdate.bitwop = req->message.body.bitwop;
     c->coll_eupdate.neflag = req->message.body.neflag;
-    if (req->message.body.neflag > 0) {
+    if (req->message.body.neflag > 0 &&
+        req->message.body.neflag != EFLAG_NULL) {
         memcpy(c->coll_eupdate.eflag, req->message.body.eflag, req->message.body.neflag);
     }
 
@@ -6779,6 +6793,10 @@ static void process_bin_setattr(conn *c)
         attr_data.maxcount = req->message.body.maxcount;
     }
     if (req->message.body.maxbkeyrange.len != BKEY_NULL) {
+        if (req->message.body.maxbkeyrange.len > MAX_BKEY_LENG) {
+            handle_binary_protocol_error(c);
+            return;
+        }
         attr_ids[attr_count++] = ATTR_MAXBKEYRANGE;
         if (req->message.body.maxbkeyrange.len == 0) {
             uint64_t bkey_temp;
@@ -7208,7 +7226,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_BOP_UPDATE:
-        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen > (keylen + extlen)) {
+        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen >= (keylen + extlen)) {
             bin_read_key(c, bin_reading_bop_update_prepare_nread, (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8));
         } else {
             protocol_error = 1;
-- 
2.43.0


From bd2aa40a639c116220166063a248774bc34dc907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 58/59] fix: binary insert with create no longer takes a stale
 overflow action

The create attributes of binary lop, sop and bop insert requests left the
overflow action as an earlier command on the same connection structure had
set it.
---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index 653118f..f8b4b0b 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4674,6 +4674,7 @@ static void process_bin_lop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
@@ -5077,6 +5078,7 @@ static void process_bin_sop_prepare_nread(conn *c)
                 c->coll_attrp->flags    = req->message.body.flags;
                 c->coll_attrp->exptime  = realtime(req->message.body.exptime);
                 c->coll_attrp->maxcount = req->message.body.maxcount;
+                c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
                 c->coll_attrp->readable = 1;
             } else {
                 c->coll_attrp = NULL;
@@ -5556,6 +5558,7 @@ static void process_bin_bop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
-- 
2.43.0


From 166fe808f95b6b84d01fb6d72369ab699d950e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 59/59] fix: binary getattr reports the attributes of a map

The count, maxcount, overflow action and readability of a map item were not
filled in, and unset fields carried what an earlier reply on the connection
had left in the buffer.
---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index f8b4b0b..e934ce7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6731,11 +6731,12 @@ static void process_bin_getattr(conn *c)
         STATS_HITS(c, getattr, key, nkey);
 
         protocol_binary_response_getattr* rsp = (protocol_binary_response_getattr*)c->wbuf;
+        memset(&rsp->message.body, 0, sizeof(rsp->message.body));
         rsp->message.body.flags      = attr_data.flags;
         rsp->message.body.expiretime = htonl(lefttime(attr_data.exptime));
         rsp->message.body.type       = attr_data.type;
         if (attr_data.type == ITEM_TYPE_LIST || attr_data.type == ITEM_TYPE_SET ||
-            attr_data.type == ITEM_TYPE_BTREE) {
+            attr_data.type == ITEM_TYPE_MAP || attr_data.type == ITEM_TYPE_BTREE) {
             rsp->message.body.count      = htonl(attr_data.count);
             rsp->message.body.maxcount   = htonl(attr_data.maxcount);
             rsp->message.body.ovflaction = attr_data.ovflaction;
-- 
2.43.0

