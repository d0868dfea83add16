From 733a345be1f0fd96ed77e6a9751647030b290719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 01/49] fix: crash in pogocache_store when the entry allocation
 fails

---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..f152151 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1640,7 +1640,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
         return POGOCACHE_INSERTED;
     }
 nomem:
-    entry_free(entry, ctx);
+    if (entry) {
+        entry_free(entry, ctx);
+    }
     return POGOCACHE_NOMEM;
 }
 
-- 
2.43.0


From 53a75113d018d285200fb1de4357b30b63500c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 02/49] fix: pogocache_clear smashed the shard when the new map
 allocation failed

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index f152151..dcac897 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2004,7 +2004,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 2398e38d6d658d25f5857b635e9de05faebe9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 03/49] fix: pogocache_new freed uninitialized shards when an
 allocation failed

---
 src/pogocache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index dcac897..ad0691e 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1232,7 +1232,8 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     ctx->free = _free;
     for (int i = 0; i < ctx->nshards; i++) {
         if (!shard_init(&cache->shards[i], ctx)) {
-            // nomem
+            // nomem. Only free the shards that have been initialized.
+            ctx->nshards = i;
             pogocache_free(cache);
             return 0;
         }
-- 
2.43.0


From f8ef33c7861ac91b4a30d1ffdbd298945003b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 04/49] fix: keep the size of the cache exact when entries
 expire or are updated in place

---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index ad0691e..fe8349d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1416,7 +1416,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1438,6 +1438,8 @@ static int loadop(const void *key, size_t keylen,
                 return POGOCACHE_NOMEM;
             }
             entry_settime(entry2, now);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             set_entry(bkt, entry2);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
@@ -1688,7 +1690,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1710,7 +1712,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1770,7 +1772,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1926,7 +1928,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From 2b1dae064fdb0323d93b7bfdbd0187b9217a7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 05/49] fix: canceled deletes and failed XX/CAS stores counted
 as stored items

---
 src/pogocache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index fe8349d..d4ae0a0 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1501,6 +1501,7 @@ static int deleteop(const void *key, size_t keylen,
             bool ok = map_insert(&shard->map, entry, hash, &old, ctx);
             assert(ok);
             assert(!old);
+            shard->map.total--; // it was already counted when first stored
             return POGOCACHE_CANCELED;
         }
     }
@@ -1607,6 +1608,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
         // Delete it and return early.
         struct entry *e = map_delete(&shard->map, key, keylen, hash, ctx);
         assert(e == entry);
+        shard->map.total--; // it was never stored
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
     }
-- 
2.43.0


From 21fa389fc818c0249837c5b86a84d507ba3ab2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 06/49] fix: out of bounds shard access in pogocache_entry_iter
 with a bad cursor

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index d4ae0a0..c823231 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1794,7 +1794,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     assert(cursor);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= cache->ctx.nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
-- 
2.43.0


From feb7bb14012d8580c777ca560c33c814b48232ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 07/49] fix: multi-shard operations on a batch deadlocked or
 used the wrong context

---
 src/pogocache.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index c823231..54e1737 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1370,9 +1370,10 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
     int shardidx; \
     uint32_t hash; \
     struct shard *shard; \
+    struct pogocache *root = cache; \
     bool usebatch = acquire_for_key((key), (keylen), &hash, &shard, &shardidx, \
-        &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+        &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)shardidx, (void)hash, (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1384,8 +1385,9 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
     struct shard *shard; \
-    bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+    struct pogocache *root = cache; \
+    bool usebatch = acquire_for_scan((shardidx), &shard, &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1745,12 +1747,12 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
             return POGOCACHE_FINISHED;
         }
         return ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
-            iterop(shard, opts->oneshardidx, now, opts, &cache->ctx)
+            iterop(shard, opts->oneshardidx, now, opts, ctx)
         );
     }
     for (int i = 0; i < nshards; i++) {
         int status = ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-            iterop(shard, i, now, opts, &cache->ctx)
+            iterop(shard, i, now, opts, ctx)
         );
         if (status != POGOCACHE_FINISHED) {
             return status;
@@ -1792,9 +1794,10 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int64_t time, uint64_t *cursor)
 {
     assert(cursor);
+    int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx >= cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1812,7 +1815,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
@@ -1958,7 +1961,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
         if (opts->oneshardidx >= 0 && opts->oneshardidx < nshards) {
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
                 sweepop(shard, opts->oneshardidx, now, &sweptc, &keptc,
-                    &cache->ctx);
+                    ctx);
             );
         }
     } else {
@@ -1966,7 +1969,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
             size_t sweptc2 = 0;
             size_t keptc2 = 0;
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-                sweepop(shard, i, now, &sweptc2, &keptc2, &cache->ctx);
+                sweepop(shard, i, now, &sweptc2, &keptc2, ctx);
             );
             sweptc += sweptc2;
             keptc += keptc2;
@@ -2033,19 +2036,19 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
         clearop(shard, shardidx, now, ctx, &buckets, &nbuckets, deferfree);
     );
     if (buckets) {
+        struct pgctx *ctx = &rootcache(cache)->ctx;
         for (int i = 0; i < nbuckets; i++) {
             if (get_dib(&buckets[i])) {
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2063,7 +2066,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2122,7 +2125,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2133,7 +2136,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf, 
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2147,7 +2151,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0, 
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 263d3408c29b64aefbb95884ac0c2ab59d0f9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 08/49] fix: iteration visited entries twice after a delete at
 the end of a shard

---
 src/pogocache.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 54e1737..c9c3da4 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1675,6 +1675,18 @@ static struct pogocache *rootcache(struct pogocache *cache) {
     return cache->isbatch ? cache->batch.cache : cache;
 }
 
+// Returns the index of a bucket that begins a run, which is an empty bucket or
+// one having an entry in its home position. A loop that starts there and goes
+// all the way around can delete buckets without an entry, which is shifted to
+// the left by a delete, being visited more than once.
+static int run_start(struct map *map) {
+    int i = 0;
+    while (get_dib(&map->buckets[i]) > 1) {
+        i++;
+    }
+    return i;
+}
+
 /// Returns the number of shards in cache
 int pogocache_nshards(struct pogocache *cache) {
     cache = rootcache(cache);
@@ -1686,7 +1698,9 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = run_start(&shard->map);
+    for (int j = 0; j < shard->map.nbuckets; j++) {
+        int i = (start+j)&shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1697,7 +1711,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
-            i--;
+            j--;
             continue;
         }
         int action = POGOCACHE_ITER_CONTINUE;
@@ -1719,7 +1733,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
                 delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
-                i--;
+                j--;
             }
             if (action&POGOCACHE_ITER_STOP) {
                 status = POGOCACHE_CANCELED;
@@ -1920,7 +1934,9 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
-    for (int i = 0; i < shard->map.nbuckets; i++) {
+    int start = run_start(&shard->map);
+    for (int j = 0; j < shard->map.nbuckets; j++) {
+        int i = (start+j)&shard->map.mask;
         struct bucket *bkt = &shard->map.buckets[i];
         if (get_dib(bkt) == 0) {
             continue;
@@ -1940,7 +1956,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
         // Entry was deleted from bucket, which may move entries to the right
         // over one bucket to the left. So we need to check the same bucket
         // again.
-        i--;
+        j--;
     }
     tryshrink(&shard->map, ctx);
     return 0;
-- 
2.43.0


From 2717fa8c88f1a8c85d3e856563b0959d4681484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 09/49] fix: pthread_create failures were not detected, it
 returns an error number

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 src/save.c |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..0e4502c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -707,7 +707,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -820,7 +820,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1129,7 +1129,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1216,7 +1216,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1279,7 +1279,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1395,7 +1395,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index b3dbbbf..04bbe79 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index e822fbf..bea6950 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1223,7 +1223,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1233,7 +1233,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1284,7 +1284,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..c3b0d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,7 +444,7 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thload, ctx) != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-- 
2.43.0


From b2642bc3bea12142c132a938742649efc74b0088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 10/49] fix: connection map grew forever because closed
 connections stayed counted

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index bea6950..14b346c 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From 693fdaed2964575a5740ad2a7e63a8dfa3231b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 11/49] fix: a client that does not read its replies blocked a
 whole event thread

Also, after background work, commands that were already received got lost
when the client had shut down its side of the connection.
---
 src/net.c | 57 +++++++++++++++++++++++++++++++++++++++----------------
 src/tls.c |  1 +
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/net.c b/src/net.c
index 14b346c..15ad088 100644
--- a/src/net.c
+++ b/src/net.c
@@ -248,6 +248,7 @@ struct net_conn {
     int fd;
     struct net_conn *next; // for hashmap bucket
     bool closed;
+    bool wblocked;         // output is blocked, waiting for the socket
     struct tls *tls;
     void *udata;
     char *out;
@@ -680,8 +681,9 @@ static void handle_read(ssize_t n, char *pkt, struct net_conn *conn,
     ctx->nqins++;
 }
 
-inline 
-static void flush_conn(struct net_conn *conn, size_t written) {
+// Write as much of the output as the socket takes. Upon return, the outlen is
+// zero unless there is output remaining because the socket would block.
+static void write_conn(struct net_conn *conn, size_t written) {
     while (written < conn->outlen) {
         ssize_t n;
         if (conn->tls) {
@@ -692,7 +694,10 @@ static void flush_conn(struct net_conn *conn, size_t written) {
         }
         if (n == -1) {
             if (errno == EAGAIN) {
-                continue;
+                // Keep the remaining output.
+                conn->outlen -= written;
+                memmove(conn->out, conn->out+written, conn->outlen);
+                return;
             }
             conn->closed = true;
             break;
@@ -703,6 +708,27 @@ static void flush_conn(struct net_conn *conn, size_t written) {
     conn->outlen = 0;
 }
 
+// Write the output. When the socket would block then the connection no longer
+// waits on reads but on the socket being writable, until it's all written.
+static void flush_conn(struct net_conn *conn, size_t written) {
+    write_conn(conn, written);
+    bool wblocked = conn->outlen > 0;
+    if (wblocked != conn->wblocked) {
+        int qfd = conn->ctx->qfd;
+        if (wblocked) {
+            delread(qfd, conn->fd);
+        } else {
+            delwrite(qfd, conn->fd);
+        }
+        int ret = wblocked ? addwrite(qfd, conn->fd) : addread(qfd, conn->fd);
+        if (ret == -1) {
+            conn->closed = true;
+            conn->outlen = 0;
+        }
+        conn->wblocked = wblocked;
+    }
+}
+
 inline
 static void qattach(struct qthreadctx *ctx) {
     for (int i = 0; i < ctx->nqattachs; i++) {
@@ -719,12 +745,13 @@ static void qattach(struct qthreadctx *ctx) {
         assert(ret == 0); (void)ret;
         ret = addread(conn->ctx->qfd, conn->fd);
         assert(ret == 0); (void)ret;
-        flush_conn(conn, 0);
-        if (conn->closed) {
-            ctx->qcloses[ctx->nqcloses++] = conn;
-        } else {
-            ctx->qreads[ctx->nqreads++] = conn;
-        }
+        // Call the user data event handler with an empty packet, because there
+        // may be pending commands which were received before the bgworker was
+        // started. The output is written after that.
+        ctx->qins[ctx->nqins] = conn;
+        ctx->qinpkts[ctx->nqins] = "";
+        ctx->qinpktlens[ctx->nqins] = 0;
+        ctx->nqins++;
     }
 }
 
@@ -842,13 +869,12 @@ static void qwrite(struct qthreadctx *ctx) {
             }
             if (n < 0) {
                 conn->closed = true;
+                conn->outlen = 0;
             } else {
                 // Any extra data must be flushed using syscall write.
                 flush_conn(conn, n);
             }
-            // Either everything was written or the socket is closed
-            conn->outlen = 0;
-            if (conn->closed) {
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
             io_uring_cqe_seen(&ctx->ring, cqe);
@@ -859,7 +885,7 @@ static void qwrite(struct qthreadctx *ctx) {
         for (int i = 0; i < ctx->nqouts; i++) {
             struct net_conn *conn = ctx->qouts[i];
             flush_conn(conn, 0);
-            if (conn->closed) {
+            if (conn->closed && conn->outlen == 0) {
                 ctx->qcloses[ctx->nqcloses++] = conn;
             }
         }
@@ -1269,9 +1295,8 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     if (conn->bgctx || conn->closed) {
         return false;
     }
-    if (!conn->closed) {
-        flush_conn(conn, 0);
-    }
+    // Output that would block is written after the work is done.
+    write_conn(conn, 0);
     if (conn->closed) {
         return false;
     }
diff --git a/src/tls.c b/src/tls.c
index 31530b8..07b87cf 100644
--- a/src/tls.c
+++ b/src/tls.c
@@ -59,6 +59,7 @@ void tls_init(void) {
         return;
     }
     ctx = SSL_CTX_new(TLS_server_method());
+    SSL_CTX_set_mode(ctx, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     if (!SSL_CTX_load_verify_locations(ctx, tlscacertfile, 0)) {
         printf("# Error initializing tls, details to follow...\n");
         ERR_print_errors_fp(stderr);
-- 
2.43.0


From f674b33107ba5e8b63355c3bddd16238c5c67860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 12/49] fix: connections were closed when the first line
 arrived in more than one segment

---
 src/parse.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..4335265 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -35,6 +35,8 @@ ssize_t parse_resp_telnet(const char *bytes, size_t len, struct args *args);
 ssize_t parse_postgres(const char *data, size_t len, struct args *args,
     struct pg **pg);
 
+#define MAXSNIFFSZ 65536 // Maximum size of the first line of a new connection
+
 static bool sniff_proto(const char *data, size_t len, int *proto) {
 #ifdef __EMSCRIPTEN__
     *proto = PROTO_RESP;
@@ -56,8 +58,13 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0 && len < MAXSNIFFSZ) {
+        // The first line has not been fully received.
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
-    if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
+    if (n >= 11 && memcmp(data+n-11, " HTTP/", 6) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
     {
         *proto = PROTO_HTTP;
@@ -65,7 +72,7 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
     }
     // Trim the prefix, Resp+Telnet and Memcache both allow for spaces between
     // arguments.
-    while (*data == ' ') {
+    while (n > 0 && *data == ' ') {
         data++;
         n--;
         len--;
-- 
2.43.0


From 1f6fe040f412c1b1fe68f640831baef23485a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 13/49] fix: http requests failed when segmented or when there
 were no headers

---
 src/http.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/http.c b/src/http.c
index 7b786af..e3bf3f4 100644
--- a/src/http.c
+++ b/src/http.c
@@ -108,10 +108,23 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
         
         p++;
     }
-    goto badreq;
+    // The request line is incomplete, more data is needed.
+    return 0;
 readhdrs:
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
+        // Check for the blank line, which is the end of the headers.
+        if (*p == '\r') {
+            p++;
+            if (p == e) {
+                return 0;
+            }
+            if (*p != '\n') {
+                goto badreq;
+            }
+            p++;
+            goto readbody;
+        }
         hdrname = p;
         while (p < e) {
             if (*p == ':') {
@@ -158,15 +171,6 @@ readhdrs:
                             authhdrlen = hdrvallen;
                         }
                         p++;
-                        if (p < e && *p == '\r') {
-                            p++;
-                            if (p < e && *p == '\n') {
-                                p++;
-                            } else {
-                                goto badreq;
-                            }
-                            goto readbody;
-                        }
                         break;
                     }
                     p++;
-- 
2.43.0


From 4c152f7f9fbf727782c414bb787a69b3a4670880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 14/49] fix: malformed memcache store and verbosity commands
 read past the arguments

---
 src/memcache.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..fb6391d 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
@@ -241,7 +241,10 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
                 parse_seterror(CLIENT_ERROR_BAD_FORMAT);
                 return -1;
             }
-            assert(args->bufs[5].len < sizeof(cas));
+            if (args->bufs[5].len >= sizeof(cas)) {
+                parse_seterror(CLIENT_ERROR_BAD_FORMAT);
+                return -1;
+            }
             memcpy(cas, args->bufs[5].data, args->bufs[5].len);
             cas[args->bufs[5].len] = '\0';
             buf_clear(&args->bufs[5]);
@@ -461,11 +464,11 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-        args_append(&args2, "verbosity", 7, true);
+        args_append(&args2, "verbosity", 9, true);
         take_and_append_arg(1);
     } else {
         return -1;
-- 
2.43.0


From c48aaa9e9a4be0041b882868ac84898764a159a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 15/49] fix: memcache cas reply for a missing key had a
 trailing NUL byte

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 0e4502c..fab3bc5 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -125,7 +125,7 @@ static void execSET(struct conn *conn, const char *cmdname,
             if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From 3747260fec9b91059009a8996263b555aed7b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 16/49] fix: the memcache noreply option was ignored

---
 src/conn.c | 11 ++++++++++-
 src/net.c  |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..d4b0bf0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -155,7 +155,12 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
+            size_t mark = net_conn_out_len(conn->conn5);
             evcommand(conn, &conn->args);
+            if (conn->noreply && net_conn_out_len(conn->conn5) > mark) {
+                // The client does not want the reply.
+                net_conn_out_setlen(conn->conn5, mark);
+            }
         }
         len -= n;
         data += n;
@@ -203,9 +208,13 @@ static void work5(void *udata) {
 }
 
 static void done5(struct net_conn *conn, void *udata) {
-    (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t mark = net_conn_out_len(conn);
     ctx->done(ctx->conn, ctx->udata);
+    if (ctx->conn->noreply && net_conn_out_len(conn) > mark) {
+        // The client does not want the reply.
+        net_conn_out_setlen(conn, mark);
+    }
     xfree(ctx);
 }
 
diff --git a/src/net.c b/src/net.c
index 15ad088..0747f86 100644
--- a/src/net.c
+++ b/src/net.c
@@ -334,7 +334,7 @@ size_t net_conn_out_cap(struct net_conn *conn) {
 }
 
 void net_conn_out_setlen(struct net_conn *conn, size_t len) {
-    assert(len < conn->outcap);
+    assert(len <= conn->outcap);
     conn->outlen = len;
 }
 
-- 
2.43.0


From 6c0dd922917f01c2aa75b060212a38c64e2e218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 17/49] fix: use after free of the first postgres argument,
 unsanitized error lines

---
 src/args.c | 1 +
 src/conn.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/args.c b/src/args.c
index c3c2060..95238a1 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,6 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
diff --git a/src/conn.c b/src/conn.c
index d4b0bf0..79ccdd0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -247,7 +247,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From 664cf783bdcdfabd0845244f3adf0a20b2819ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 18/49] fix: SET EXAT and PXAT compared the unix time with the
 monotonic clock

---
 src/cmds.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index fab3bc5..1099fc9 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -167,6 +167,13 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Converts a Unix time to the expiry time that is used by the cache, which is
+// based on sys_now. A time in the past results in an expiry that has passed.
+static int64_t expiry_unix_time(int64_t now, int64_t unixtime) {
+    int64_t expires = int64_add_clamp(now, unixtime-sys_unixnow());
+    return expires > 0 ? expires : 1;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -245,9 +252,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From b1d74f2ad36c29cb67bda172c881fe6b8f3b758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 19/49] fix: EXPIRE with a large negative time and memcache
 touch with 0 or a unix time

---
 src/cmds.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 1099fc9..15a13c0 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1037,8 +1037,14 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_INVALID_INTEGER);
         return;
     }
-    expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
+    if (conn_proto(conn) != PROTO_MEMCACHE || expires != 0) {
+        expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
+        expires = expiry_seconds_time(conn, now, expires);
+        if (expires <= 0) {
+            // The time has passed. Zero would mean that it never expires.
+            expires = 1;
+        }
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From 23585637c9330b26d37d35f098b6e9262fe8498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 20/49] fix: monitors that do not read stalled the server,
 replies and lines were interleaved

---
 src/cmds.c    |  9 +++++----
 src/conn.c    | 12 ++++++++++--
 src/conn.h    |  4 +++-
 src/monitor.c | 46 +++++++++++++++++++++++++++++++++++++++-------
 src/monitor.h |  1 +
 src/net.c     | 27 +++++++++++++++++++++++++--
 src/net.h     |  4 +++-
 7 files changed, 86 insertions(+), 17 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 15a13c0..f2f251e 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1515,11 +1515,14 @@ static void monitor_work(void *udata) {
     struct monitor_ctx *ctx = udata;
     struct conn *conn = ctx->conn;
     char pkt[4096];
-    conn_setnonblock(conn, false);
+    conn_flush(conn);
     monitor_start(conn);
     struct args args = { 0 };
     while (1) {
         ssize_t n = conn_read(conn, pkt, sizeof(pkt));
+        if (n == -1 && errno == EAGAIN && conn_wait_read(conn)) {
+            continue;
+        }
         if (n <= 0) {
             break;
         }
@@ -1536,14 +1539,13 @@ static void monitor_work(void *udata) {
         if (args.len == 0) {
             continue;
         } else if (args_eq(&args, 0, "ping")) {
-            conn_write(conn, "+PONG\r\n", 7);
+            monitor_pong(conn);
         } else {
             break;
         }
     }
     args_free(&args);
     monitor_stop(conn);
-    conn_setnonblock(conn, false);
 }
 
 static void monitor_done(struct conn *conn, void *udata) {
@@ -1562,7 +1564,6 @@ static void cmdMONITOR(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-    conn_write_string(conn, "OK");
     struct monitor_ctx *ctx = xmalloc(sizeof(struct monitor_ctx));
     memset(ctx, 0, sizeof(struct monitor_ctx));
     ctx->conn = conn;
diff --git a/src/conn.c b/src/conn.c
index 79ccdd0..f7fe11a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -450,8 +450,16 @@ struct pg *conn_pg(struct conn *conn) {
     return conn->pg;
 }
 
-int conn_setnonblock(struct conn *conn, bool set) {
-    return net_conn_setnonblock(conn->conn5, set);
+void conn_flush(struct conn *conn) {
+    net_conn_flush(conn->conn5);
+}
+
+bool conn_wait_read(struct conn *conn) {
+    return net_conn_wait_read(conn->conn5);
+}
+
+void conn_shutdown(struct conn *conn) {
+    net_conn_shutdown(conn->conn5);
 }
 
 ssize_t conn_read(struct conn *conn, char *bytes, size_t nbytes) {
diff --git a/src/conn.h b/src/conn.h
index 83ab275..eb55b5a 100644
--- a/src/conn.h
+++ b/src/conn.h
@@ -36,7 +36,9 @@ bool conn_istls(struct conn *conn);
 ssize_t conn_read(struct conn *conn, char *bytes, size_t nbytes);
 ssize_t conn_write(struct conn *conn, const char *bytes, size_t nbytes);
 int conn_fd(struct conn *conn);
-int conn_setnonblock(struct conn *conn, bool set);
+void conn_flush(struct conn *conn);
+bool conn_wait_read(struct conn *conn);
+void conn_shutdown(struct conn *conn);
 
 const char *conn_addr(struct conn *conn);
 
diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d08d1a2 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -22,6 +22,26 @@ static struct conn **conns = 0;
 static int conns_len = 0;
 static int conns_cap = 0;
 
+// Remove the monitor. The mutex must be locked.
+static void monitor_remove(int i) {
+    conns[i] = conns[conns_len-1];
+    conns_len--;
+    atomic_fetch_sub(&monitoring, 1);
+}
+
+// Write to the monitor, without waiting for its socket because this would stop
+// the event loops of all other connections. A monitor that isn't keeping up is
+// disconnected. The mutex must be locked.
+static bool monitor_write(int i, const void *data, size_t len) {
+    struct conn *conn = conns[i];
+    if (conn_write(conn, data, len) == (ssize_t)len) {
+        return true;
+    }
+    monitor_remove(i);
+    conn_shutdown(conn);
+    return false;
+}
+
 void monitor_start(struct conn *conn) {
     pthread_mutex_lock(&mu);
     if (conns_len == conns_cap) {
@@ -30,6 +50,18 @@ void monitor_start(struct conn *conn) {
     }
     conns[conns_len++] = conn;
     atomic_fetch_add(&monitoring, 1);
+    monitor_write(conns_len-1, "+OK\r\n", 5);
+    pthread_mutex_unlock(&mu);
+}
+
+void monitor_pong(struct conn *conn) {
+    pthread_mutex_lock(&mu);
+    for (int i = 0; i < conns_len; i++) {
+        if (conns[i] == conn) {
+            monitor_write(i, "+PONG\r\n", 7);
+            break;
+        }
+    }
     pthread_mutex_unlock(&mu);
 }
 
@@ -37,12 +69,10 @@ void monitor_stop(struct conn *conn) {
     pthread_mutex_lock(&mu);
     for (int i = 0; i < conns_len; i++) {
         if (conns[i] == conn) {
-            conns[i] = conns[conns_len-1];
-            conns_len--;
+            monitor_remove(i);
             break;
         }
     }
-    atomic_fetch_sub(&monitoring, 1);
     pthread_mutex_unlock(&mu);
 }
 
@@ -86,7 +116,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
@@ -97,10 +127,12 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
     buf_append(&buf, "\r\n", 2);
 
     pthread_mutex_lock(&mu);
-    for (int i = 0; i < conns_len; i++) {
-        conn_write(conns[i], buf.data, buf.len);
+    int i = 0;
+    while (i < conns_len) {
+        if (monitor_write(i, buf.data, buf.len)) {
+            i++;
+        }
     }
-    
     pthread_mutex_unlock(&mu);
 
     buf_clear(&buf);
diff --git a/src/monitor.h b/src/monitor.h
index c0b86e7..1871644 100644
--- a/src/monitor.h
+++ b/src/monitor.h
@@ -14,6 +14,7 @@
 #include "args.h"
 
 void monitor_start(struct conn *conn);
+void monitor_pong(struct conn *conn);
 void monitor_stop(struct conn *conn);
 void monitor_cmd(int64_t now, int db, const char *addr, struct args *args);
 
diff --git a/src/net.c b/src/net.c
index 0747f86..eed7c70 100644
--- a/src/net.c
+++ b/src/net.c
@@ -31,6 +31,7 @@
 #include <inttypes.h>
 #include <ctype.h>
 #include <sys/un.h>
+#include <poll.h>
 
 #ifdef __linux__
 #include <sys/socket.h>
@@ -1347,8 +1348,30 @@ bool net_conn_istls(struct net_conn *conn) {
     return conn->tls != 0;
 }
 
-int net_conn_setnonblock(struct net_conn *conn, bool set) {
-    return setnonblock(conn->fd, set);
+static bool conn_wait(struct net_conn *conn, short events) {
+    struct pollfd pfd = { .fd = conn->fd, .events = events };
+    return poll(&pfd, 1, -1) != -1 || errno == EINTR;
+}
+
+// Write all remaining output.
+// only use when full detached
+void net_conn_flush(struct net_conn *conn) {
+    write_conn(conn, 0);
+    while (conn->outlen > 0 && conn_wait(conn, POLLOUT)) {
+        write_conn(conn, 0);
+    }
+}
+
+// Wait until there is something to read.
+// only use when full detached
+bool net_conn_wait_read(struct net_conn *conn) {
+    return conn_wait(conn, POLLIN);
+}
+
+// Shutdown the socket, which causes net_conn_read to return.
+// only use when full detached
+void net_conn_shutdown(struct net_conn *conn) {
+    shutdown(conn->fd, SHUT_RDWR);
 }
 
 // only use when full detached
diff --git a/src/net.h b/src/net.h
index 50d375d..2dbdd00 100644
--- a/src/net.h
+++ b/src/net.h
@@ -87,7 +87,9 @@ uint64_t stat_get_hits(void);
 uint64_t stat_get_misses(void);
 
 // only use these from bgwork threads
-int net_conn_setnonblock(struct net_conn *conn, bool set);
+void net_conn_flush(struct net_conn *conn);
+bool net_conn_wait_read(struct net_conn *conn);
+void net_conn_shutdown(struct net_conn *conn);
 ssize_t net_conn_read(struct net_conn *conn, char *bytes, size_t nbytes);
 ssize_t net_conn_write(struct net_conn *conn, const char *bytes, size_t nbytes);
 const char *net_conn_addr(struct net_conn *conn);
-- 
2.43.0


From b439e516b3f1bd8e53c9c0d49a5c0c9b6b1c86ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 21/49] fix: snapshots were renamed before they reached the
 disk, and a leak on error

---
 src/save.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c3b0d40..6bc22a0 100644
--- a/src/save.c
+++ b/src/save.c
@@ -155,8 +155,9 @@ int save(const char *path, bool fast) {
     if (verb >= 2) {
         printf(". Saving to work file %s\n", workpath);
     }
-    int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
+    int fd = open(workpath, O_RDWR|O_CREAT|O_TRUNC, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        xfree(workpath);
         return -1;
     }
     int nshards = pogocache_nshards(cache);
@@ -211,6 +212,11 @@ int save(const char *path, bool fast) {
             goto done;
         }
     }
+    // The contents must reach the disk before the name does, otherwise a power
+    // loss may leave an incomplete file at the final path.
+    if (fsync(fd) == -1) {
+        goto done;
+    }
     // Move file work file to final path
     if (rename(workpath, path) == -1) {
         goto done;
-- 
2.43.0


From b0f6d3eac15c21b6a9407f3bcdddf91f3dcba930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 22/49] fix: an entry that expires at the instant of a load
 became permanent

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6bc22a0..567dcf9 100644
--- a/src/save.c
+++ b/src/save.c
@@ -350,7 +350,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From 29b2b50232b39405a4826221b9afbaada6b0b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 23/49] fix: the evict, sixpack and autosweep flags had no
 effect

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 04bbe79..ea7852a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
@@ -756,6 +756,8 @@ int main(int argc, char *argv[]) {
         .usecas = usecasflag,
         .allowshrink = true,
         .usethreadbatch = true,
+        .noevict = !useevict,
+        .nosixpack = !usesixpack,
     };
 
     cache = pogocache_new(&opts);
-- 
2.43.0


From 08eff00b65196eb9a11cb0646d8436ae46bc95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 24/49] fix: crashes of DEBUG POPULATE, SWEEP refused two
 options, unwrapped command lookup

---
 src/cmds.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index f2f251e..050e673 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1209,7 +1209,7 @@ static void *thsweep0(void *arg) {
 
 // SWEEP [ASYNC] [FAST]
 static void cmdSWEEP(struct conn *conn, struct args *args) {
-    if (args->len > 2) {
+    if (args->len > 3) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
@@ -1338,7 +1338,10 @@ static void *populate_entry(void *arg) {
             .time = now,
         };
         if (ctx->randex) {
-            int ex = (rand()%(ctx->randmax-ctx->randmin))+ctx->randmin;
+            int ex = ctx->randmin;
+            if (ctx->randmax > ctx->randmin) {
+                ex += rand()%(ctx->randmax-ctx->randmin);
+            }
             opts.ttl = ex*POGOCACHE_SECOND;
         }
         pogocache_store(cache, key, keylen, ctx->val, ctx->vallen, &opts);
@@ -1364,7 +1367,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
     size_t prefixlen = args->bufs[2].len;
     char *prefix = args->bufs[2].data;
     int64_t vallen;
-    if (!argi64(args, 3, &vallen) || vallen < 0) {
+    if (!argi64(args, 3, &vallen) || vallen < 0 || vallen > MAXARGSZ) {
         conn_write_error(conn, ERR_SYNTAX_ERROR);
         return;
     }
@@ -2388,7 +2391,7 @@ static struct cmd *get_cmd(const char *name, size_t namelen) {
         if (argeq_bytes(name, namelen, buckets[j].name)) {
             return &buckets[j];
         }
-        j++;
+        j = (j+1)&(nbuckets-1);
     }
 }
 
-- 
2.43.0


From deda0833b25531a08d6a56df600521dcc081d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 25/49] fix: postgres statements that use a parameter twice
 were refused

---
 src/postgres.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..04621a6 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -567,7 +567,9 @@ static bool parse_query_args(const char *query, struct args *args,
                     parse_errorf("there is no parameter $%ld", param);
                     goto done;
                 }
-                pmap_insert(&pmap, param);
+                if (!pmap_exists(&pmap, param)) {
+                    pmap_insert(&pmap, param);
+                }
                 args_append(args, p, e-p, true);
                 if (argtypes) {
                     buf_append_byte(argtypes, 'P'+join);
-- 
2.43.0


From b8292253bb2dc8f08534586b7ccb7bba5bd2de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 26/49] fix: postgres messages with an invalid length crashed,
 repeated startups leaked

---
 src/postgres.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 04621a6..9fb6d0d 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1071,7 +1071,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t msgsize = read_i32(data+1);
+    if (msgsize < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = msgsize;
     if (len < msglen+1) {
         return 0;
     }
@@ -1161,10 +1166,13 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    xfree(pg->user);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
+    xfree(pg->database);
     pg->database = xmalloc(strlen(database)+1);
     strcpy((char*)pg->database, database);
+    xfree(pg->application_name);
     pg->application_name = xmalloc(strlen(application_name)+1);
     strcpy((char*)pg->application_name, application_name);
     pg->startup = 1;
@@ -1475,7 +1483,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         pg->auth = 0;
         return true;
     }
-    if (pg->startup == 1) {
+    if (pg->startup == 1 && !pg->ready) {
         if (auth && *auth) {
             pg_write_auth(conn, 3); // AuthenticationCleartextPassword;
         } else {
-- 
2.43.0


From 33763a27fd6b34648d8ab28f19bdc27659920e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 27/49] fix: postgres strings with escaped quotes lost their
 contents

---
 src/postgres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 9fb6d0d..b17e455 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
@@ -394,6 +394,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
         case 'n' : ch = '\n'; break; \
         case 'r' : ch = '\r'; break; \
         case 't' : ch = '\t'; break; \
+        case '\'': ch = '\''; break; \
         case '"' : ch = '"';  break; \
         case 'u' : \
             if (ii+5 > nn) { nn = 0; continue; }; \
-- 
2.43.0


From a259a3ee3ab7f194bdf95d09bb5b170138f516e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 28/49] fix: storing over an expired entry was not counted as
 an insert

---
 src/pogocache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index c9c3da4..0090c4d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1572,6 +1572,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
         notify(shardidx, NOTIFY_EXPIRED, 0, old, now, ctx);
         entry_free(old, ctx);
         old = 0;
+        shard->map.total++; // the new entry was inserted, not replaced
     }
     int put_back_status = 0;
     if (old) {
-- 
2.43.0


From 63efd2bb252c1fbe645311474c4f11a4e46faa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 29/49] fix: more than 255 entries away from their bucket got
 lost

---
 src/pogocache.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 0090c4d..fa50889 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -813,6 +813,12 @@ static void set_dib(struct bucket *bucket, uint8_t dib) {
     bucket->dib = dib;
 }
 
+// Returns the dib of an entry that moves one bucket further from home. The dib
+// stays at the maximum for all of the distances that do not fit.
+static uint8_t next_dib(uint8_t dib) {
+    return dib < UINT8_MAX ? dib+1 : UINT8_MAX;
+}
+
 static bool map_init(struct map *map, size_t cap, struct pgctx *ctx) {
     memset(map, 0, sizeof(struct map));
     map->cap = cap;
@@ -852,7 +858,7 @@ static bool resize(struct map *map, size_t new_cap, struct pgctx *ctx) {
                     ebkt = tmp;
                 }
                 j = (j + 1) & map2.mask;
-                set_dib(&ebkt, get_dib(&ebkt)+1);
+                set_dib(&ebkt, next_dib(get_dib(&ebkt)));
             }
         }
     }
@@ -910,7 +916,7 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             ebkt = tmp;
         }
         i = (i + 1) & map->mask;
-        set_dib(&ebkt, get_dib(&ebkt)+1);
+        set_dib(&ebkt, next_dib(get_dib(&ebkt)));
     }
 }
 
@@ -957,7 +963,14 @@ static void delbkt(struct map *map, size_t i) {
             break;
         }
         map->buckets[h] = map->buckets[i];
-        set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        if (get_dib(&map->buckets[h]) < UINT8_MAX) {
+            set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        } else {
+            // The distance may not have fit, measure it.
+            size_t home = get_hash(&map->buckets[h]) & map->mask;
+            size_t dist = (h - home) & map->mask;
+            set_dib(&map->buckets[h], dist < UINT8_MAX ? dist+1 : UINT8_MAX);
+        }
     }
     map->count--;
 }
-- 
2.43.0


From 61b5192883786ec83f5a2e12770fd8d0ab2f6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 30/49] fix: a damaged snapshot header could make LOAD allocate
 gigabytes and abort

---
 src/save.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/save.c b/src/save.c
index 567dcf9..71f6fff 100644
--- a/src/save.c
+++ b/src/save.c
@@ -21,6 +21,7 @@
 #include <fcntl.h>
 #include <dirent.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <libgen.h>
 #include "save.h"
 #include "pogocache.h"
@@ -470,6 +471,12 @@ int load(const char *path, bool fast, struct load_stats *stats) {
     // process them in no specific order.
     struct buf cdata = { 0 };
     bool shortread = false;
+    struct stat st;
+    if (fstat(fd, &st) == -1) {
+        ok = false;
+    }
+    bool isreg = ok && S_ISREG(st.st_mode);
+    off_t left = ok ? st.st_size : 0; // bytes of the file not yet read
     while (ok) {
         uint8_t head[16];
         ssize_t size = read(fd, head, 16);
@@ -493,6 +500,15 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         memcpy(&crc, head+4, 4);
         size_t dlen = read_u32(head+8);
         size_t clen = read_u32(head+12);
+        left -= 16;
+        if ((isreg && (off_t)clen > left) || dlen > clen*255) {
+            // More compressed data than the file has, or more decompressed
+            // data than LZ4 can produce. Do not allocate memory for it.
+            printf(". bad block size\n");
+            ok = false;
+            break;
+        }
+        left -= clen;
         buf_ensure(&cdata, clen);
         bool okread = true;
         size_t total = 0;
-- 
2.43.0


From e079f8aa8246545d530da575dd78df388f0db337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 31/49] fix: a signal could make a delayed flush run early,
 before the final save

---
 src/cmds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 050e673..7ee31dd 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -775,7 +775,11 @@ static void *thflush0(void *arg) {
     struct flushctx *ctx = arg;
     if (ctx->delay > 0) {
         printf(". flush scheduled in %lld seconds\n", (long long)ctx->delay);
-        sleep(ctx->delay);
+        // A signal may end the sleep early. Do not flush before its time.
+        unsigned int left = ctx->delay;
+        while (left > 0) {
+            left = sleep(left);
+        }
     }
     flush_work(ctx);
     xfree(ctx);
-- 
2.43.0


From 2e9042fc4cc865ac2c0b2ccc11b08d723ab17249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 32/49] fix: an older save could replace the snapshot of a
 newer one, also the final one

---
 src/save.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 71f6fff..23fd5cf 100644
--- a/src/save.c
+++ b/src/save.c
@@ -147,7 +147,7 @@ done:
     return 0;
 }
 
-int save(const char *path, bool fast) {
+static int save_locked(const char *path, bool fast) {
     uint64_t seed = sys_seed();
     size_t psize = strlen(path)+32;
     char *workpath = xmalloc(psize);
@@ -231,6 +231,18 @@ done:
     return ok ? 0 : -1;
 }
 
+// Saves run one at a time. Otherwise one that started earlier, with older data,
+// may finish later and replace the snapshot of a save that already succeeded.
+int save(const char *path, bool fast) {
+    static pthread_mutex_t savelock = PTHREAD_MUTEX_INITIALIZER;
+    pthread_mutex_lock(&savelock);
+    int ret = save_locked(path, fast);
+    int errnum = errno;
+    pthread_mutex_unlock(&savelock);
+    errno = errnum;
+    return ret;
+}
+
 // compressed block
 struct cblock {
     struct buf cdata;   // compressed data
-- 
2.43.0


From aa3de3b73050d80844f0bff3daad30279b5da3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 33/49] fix: a cursor walk that met expired entries could visit
 others twice

---
 src/pogocache.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index fa50889..0f1f94f 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1789,6 +1789,20 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
     return POGOCACHE_FINISHED;
 }
 
+// Returns true if deleting the entry at bucket shifts the entry of the first
+// bucket around to the last one.
+static bool shifts_first(struct map *map, int i) {
+    if (get_dib(&map->buckets[0]) <= 1) {
+        return false;
+    }
+    for (i++; i < map->nbuckets; i++) {
+        if (get_dib(&map->buckets[i]) <= 1) {
+            return false;
+        }
+    }
+    return true;
+}
+
 static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
     int shardidx, int *iter, struct pgctx *ctx)
 {
@@ -1804,6 +1818,11 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
+            if (shifts_first(&shard->map, i)) {
+                // Deleting it would make the walk visit an entry twice. Leave
+                // it to a sweep or to the next access.
+                continue;
+            }
             delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
-- 
2.43.0


From 3cff04b227efa03c29a7376b1c932259a8cac0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 34/49] fix: increments and appends ignored the memory limit

---
 src/cmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 7ee31dd..715800e 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1739,6 +1739,7 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
         .expires = ctx.expires, 
         .flags = ctx.flags, 
         .cas = ctx.cas,
+        .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .udata = &ctx,
     };
     status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
@@ -1921,6 +1922,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
         len = vallen;
         struct pogocache_store_opts sopts = {
             .time = now,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     } else {
@@ -1935,6 +1937,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
             .time = now,
             .expires = ctx.expires,
             .flags = ctx.flags,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, ctx.outval, ctx.outvallen, 
             &sopts);
-- 
2.43.0


From 7393cce9321ce2cc4f81e27cc4f3b55f97f3c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 35/49] fix: a monitor was disconnected when its PING arrived
 in pieces

---
 src/cmds.c | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 715800e..e7a7836 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1525,7 +1525,9 @@ static void monitor_work(void *udata) {
     conn_flush(conn);
     monitor_start(conn);
     struct args args = { 0 };
-    while (1) {
+    struct buf in = { 0 };
+    bool ok = true;
+    while (ok) {
         ssize_t n = conn_read(conn, pkt, sizeof(pkt));
         if (n == -1 && errno == EAGAIN && conn_wait_read(conn)) {
             continue;
@@ -1533,24 +1535,35 @@ static void monitor_work(void *udata) {
         if (n <= 0) {
             break;
         }
-        args_clear(&args);
-        ssize_t nn;
-        if (pkt[0] == '*') {
-            nn = parse_resp(pkt, n, &args);
-        } else {
-            nn = parse_resp_telnet(pkt, n, &args);
-        }
-        if (nn != n) {
-            break;
-        }
-        if (args.len == 0) {
-            continue;
-        } else if (args_eq(&args, 0, "ping")) {
-            monitor_pong(conn);
-        } else {
-            break;
+        // A read may hold a part of a command, or more than one.
+        buf_append(&in, pkt, n);
+        size_t used = 0;
+        while (used < in.len) {
+            args_clear(&args);
+            ssize_t nn;
+            if (in.data[used] == '*') {
+                nn = parse_resp(in.data+used, in.len-used, &args);
+            } else {
+                nn = parse_resp_telnet(in.data+used, in.len-used, &args);
+            }
+            if (nn == 0) {
+                // Need more data, but a PING is never this big.
+                ok = in.len-used < sizeof(pkt);
+                break;
+            }
+            if (nn == -1 || (args.len > 0 && !args_eq(&args, 0, "ping"))) {
+                ok = false;
+                break;
+            }
+            if (args.len > 0) {
+                monitor_pong(conn);
+            }
+            used += nn;
         }
+        memmove(in.data, in.data+used, in.len-used);
+        in.len -= used;
     }
+    buf_clear(&in);
     args_free(&args);
     monitor_stop(conn);
 }
-- 
2.43.0


From 8ec8e9b92733997f191597f393cae00e34723295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 36/49] fix: numbers in resp requests were read past their
 line, and past the buffer

---
 src/resp.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..5e69aa3 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -133,20 +133,31 @@ fail_argsz:
     return -1;
 }
 
+#define MAXNUMSZ 32 // Maximum size of a number in the protocol
+
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
+    // Copy the number, because strtoll skips over line breaks and reads past
+    // the end of data when it's not followed by something else.
+    char num[MAXNUMSZ+1];
+    if (len == 0 || len > MAXNUMSZ) {
+        *ok = false;
+        return 0;
+    }
+    memcpy(num, data, len);
+    num[len] = '\0';
     errno = 0;
     char *end;
-    int64_t x = strtoll(data, &end, 10);
-    *ok = errno == 0 && (size_t)(end-data) == len && x >= min && x <= max;
+    int64_t x = strtoll(num, &end, 10);
+    *ok = errno == 0 && (size_t)(end-num) == len && x >= min && x <= max;
     return x;
 }
 
 #define read_resp_num(var, min, max, errmsg) { \
     char *p = memchr(bytes, '\r', end-bytes); \
-    if (!p) { \
-        if (end-bytes > 32) { \
+    if (!p || p-bytes > MAXNUMSZ) { \
+        if (end-bytes > MAXNUMSZ) { \
             parse_seterror("ERR Protocol error: " errmsg); \
             return -1; \
         } \
@@ -156,6 +167,7 @@ static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
         return 0; \
     } \
     if (*(p+1) != '\n') { \
+        parse_seterror("ERR Protocol error: " errmsg); \
         return -1; \
     } \
     bool ok; \
-- 
2.43.0


From 816d8418e9dbca133dfe63c72ef21065052f94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 37/49] fix: the limit of the first line depended on how the
 request was segmented

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 4335265..f454225 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -63,6 +63,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
         *proto = 0;
         return true;
     }
+    if (n > MAXSNIFFSZ) {
+        // Same as when it wasn't received at once.
+        *proto = 0;
+        return false;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 6) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
-- 
2.43.0


From 91e7ea7cf845cbcde5dbb9b0deb3a85b23448f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 38/49] fix: each write to a slow reader moved all of its
 remaining output

---
 src/net.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/net.c b/src/net.c
index eed7c70..d93b904 100644
--- a/src/net.c
+++ b/src/net.c
@@ -254,6 +254,7 @@ struct net_conn {
     void *udata;
     char *out;
     size_t outlen;
+    size_t outpos; // the part of the output that has already been written
     size_t outcap;
     char *addr;
     struct bgworkctx *bgctx;
@@ -685,27 +686,28 @@ static void handle_read(ssize_t n, char *pkt, struct net_conn *conn,
 // Write as much of the output as the socket takes. Upon return, the outlen is
 // zero unless there is output remaining because the socket would block.
 static void write_conn(struct net_conn *conn, size_t written) {
-    while (written < conn->outlen) {
+    conn->outpos += written;
+    while (conn->outpos < conn->outlen) {
         ssize_t n;
         if (conn->tls) {
-            n = tls_write(conn->tls, conn->fd, conn->out+written, 
-                conn->outlen-written);
+            n = tls_write(conn->tls, conn->fd, conn->out+conn->outpos, 
+                conn->outlen-conn->outpos);
         } else {
-            n = write(conn->fd, conn->out+written, conn->outlen-written);
+            n = write(conn->fd, conn->out+conn->outpos, 
+                conn->outlen-conn->outpos);
         }
         if (n == -1) {
             if (errno == EAGAIN) {
                 // Keep the remaining output.
-                conn->outlen -= written;
-                memmove(conn->out, conn->out+written, conn->outlen);
                 return;
             }
             conn->closed = true;
             break;
         }
-        written += n;
+        conn->outpos += n;
     }
     // either everything was written or the socket is closed
+    conn->outpos = 0;
     conn->outlen = 0;
 }
 
@@ -724,6 +726,7 @@ static void flush_conn(struct net_conn *conn, size_t written) {
         int ret = wblocked ? addwrite(qfd, conn->fd) : addread(qfd, conn->fd);
         if (ret == -1) {
             conn->closed = true;
+            conn->outpos = 0;
             conn->outlen = 0;
         }
         conn->wblocked = wblocked;
@@ -849,7 +852,8 @@ static void qwrite(struct qthreadctx *ctx) {
         for (int i = 0; i < ctx->nqouts; i++) {
             struct net_conn *conn = ctx->qouts[i];
             struct io_uring_sqe *sqe = io_uring_get_sqe(&ctx->ring);
-            io_uring_prep_write(sqe, conn->fd, conn->out, conn->outlen, 0);
+            io_uring_prep_write(sqe, conn->fd, conn->out+conn->outpos, 
+                conn->outlen-conn->outpos, 0);
         }
         int ret = io_uring_submit(&ctx->ring);
         if (ret < 0) {
@@ -870,6 +874,7 @@ static void qwrite(struct qthreadctx *ctx) {
             }
             if (n < 0) {
                 conn->closed = true;
+                conn->outpos = 0;
                 conn->outlen = 0;
             } else {
                 // Any extra data must be flushed using syscall write.
-- 
2.43.0


From 5c14b228e7e7ad42bf46cd903752880b9d94dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 39/49] fix: the memcache touch command was not counted in the
 statistics

---
 src/cmds.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index e7a7836..2893980 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1058,6 +1058,15 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
     int status = pogocache_load(cache, key, keylen, &lopts);
     int ret = status == POGOCACHE_FOUND;
     int proto = conn_proto(conn);
+    if (proto == PROTO_MEMCACHE) {
+        // This is the memcache touch command
+        stat_cmd_touch_incr(conn);
+        if (ret) {
+            stat_touch_hits_incr(conn);
+        } else {
+            stat_touch_misses_incr(conn);
+        }
+    }
     switch (proto) {
     case PROTO_POSTGRES:
         pg_write_completef(conn, "EXPIRE %d", ret);
-- 
2.43.0


From b55051aaa33a7a41b95d5f59e47225d54b296d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 40/49] fix: memcache unix times were converted with two
 readings of the clock

A clock that is set forward between the two made the time negative, and the
server aborted (assert expires >= 0).
---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 2893980..84dbe34 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -159,7 +159,7 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
         // Consider Unix time value rather than an offset from current time.
         int64_t unix_ = sys_unixnow();
         if (expiry > unix_) {
-            expiry = expiry-sys_unixnow();
+            expiry = expiry-unix_;
         } else {
             expiry = 0;
         }
-- 
2.43.0


From 48f117efdc15613f9bd3912842d53fc5737d81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 41/49] fix: empty values and leading blanks passed as numbers

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..b5ce93c 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || (unsigned char)data[0] <= ' ') {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || (unsigned char)data[0] <= ' ') {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 17c84d72fac5ffee14ab719807247fff9b80aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 42/49] fix: each part of a large request moved all of it in
 the receive buffer

---
 src/conn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index f7fe11a..8478ab9 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -184,7 +184,9 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         }
     } else {
         if (copied) {
-            memmove(conn->packet.data, data, len);
+            if (data > conn->packet.data) {
+                memmove(conn->packet.data, data, len);
+            }
             conn->packet.len = len;
         } else {
             buf_append(&conn->packet, data, len);
-- 
2.43.0


From 9f408e20a2f196f8534eccceda736ed7b38cd0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 43/49] fix: a shard of more than 2 GB was saved as an
 unreadable snapshot, with success

---
 src/save.c | 70 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/save.c b/src/save.c
index 23fd5cf..b00400d 100644
--- a/src/save.c
+++ b/src/save.c
@@ -49,20 +49,36 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    uint64_t unixtime;     // unix timestamp of the current shard
+    size_t blockstart;     // position of the current block in the buffer
+    struct buf ends;       // end positions of the previous blocks in the buffer
 };
 
-static int flush(struct savectx *ctx) {
-    if (ctx->nentries == 0) {
-        ctx->buf.len = 0;
-        return 0;
+// Start a new block in the block buffer
+static void begin_block(struct savectx *ctx) {
+    ctx->blockstart = ctx->buf.len;
+    // write the unix timestamp before entries
+    buf_append_uvarint(&ctx->buf, ctx->unixtime);
+}
+
+// Write one block from the block buffer
+static int flush_block(struct savectx *ctx, size_t start, size_t end) {
+    const char *data = ctx->buf.data+start;
+    size_t datalen = end-start;
+    if (datalen > LZ4_MAX_INPUT_SIZE) {
+        // The entry is too big to be compressed
+        return -1;
     }
     // Make sure that there's enough space in the dst buffer to store the
     // header (16 bytes) and the compressed data.
-    size_t bounds = LZ4_compressBound(ctx->buf.len);
+    size_t bounds = LZ4_compressBound(datalen);
     buf_ensure(&ctx->dst, 16+bounds);
     // Compress the block
-    uint32_t len = LZ4_compress_default((char*)ctx->buf.data, 
-        (char*)ctx->dst.data+16, ctx->buf.len, bounds);
+    int len = LZ4_compress_default(data, (char*)ctx->dst.data+16, datalen, 
+        bounds);
+    if (len <= 0) {
+        return -1;
+    }
     // The block is now compressed.
     // Genreate a checksum of the compressed data.
     uint32_t crc = crc32(ctx->dst.data+16, len);
@@ -72,16 +88,16 @@ static int flush(struct savectx *ctx) {
     // (4-7) Checksum
     write_u32(ctx->dst.data+4, crc);
     // (8-11) Len of decompressed data 
-    write_u32(ctx->dst.data+8, ctx->buf.len);
+    write_u32(ctx->dst.data+8, datalen);
     // (12-15) Len of compressed data 
     write_u32(ctx->dst.data+12, len);
     // The rest of the dst buffer contains the compressed bytes
     uint8_t *p = (uint8_t*)ctx->dst.data;
-    uint8_t *end = p + len+16;
+    uint8_t *pend = p + len+16;
     bool ok = true;
     pthread_mutex_lock(ctx->lock);
-    while (p < end) {
-        ssize_t n = write(ctx->fd, p, end-p);
+    while (p < pend) {
+        ssize_t n = write(ctx->fd, p, pend-p);
         if (n < 0) {
             ok = false;
             break;
@@ -89,9 +105,28 @@ static int flush(struct savectx *ctx) {
         p += n;
     }
     pthread_mutex_unlock(ctx->lock);
+    return ok ? 0 : -1;
+}
+
+// Write all blocks from the block buffer
+static int flush(struct savectx *ctx) {
+    int ret = 0;
+    if (ctx->nentries > 0) {
+        size_t start = 0;
+        size_t nends = ctx->ends.len/sizeof(size_t);
+        for (size_t i = 0; i <= nends && ret == 0; i++) {
+            size_t end = ctx->buf.len;
+            if (i < nends) {
+                memcpy(&end, ctx->ends.data+i*sizeof(size_t), sizeof(size_t));
+            }
+            ret = flush_block(ctx, start, end);
+            start = end;
+        }
+    }
     ctx->buf.len = 0;
+    ctx->ends.len = 0;
     ctx->nentries = 0;
-    return ok ? 0 : -1;
+    return ret;
 }
 
 static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
@@ -100,6 +135,12 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
 {
     (void)shard;
     struct savectx *ctx = udata;
+    if (ctx->buf.len-ctx->blockstart >= BLOCKSIZE) {
+        // The block is full, continue with another.
+        size_t end = ctx->buf.len;
+        buf_append(&ctx->ends, &end, sizeof(size_t));
+        begin_block(ctx);
+    }
     buf_append_byte(&ctx->buf, 0); // entry type. zero=k/v string pair;
     buf_append_uvarint(&ctx->buf, keylen);
     buf_append(&ctx->buf, key, keylen);
@@ -129,8 +170,8 @@ static void *thsave(void *arg) {
             .entry = save_entry,
             .udata = ctx,
         };
-        // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        begin_block(ctx);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
@@ -143,6 +184,7 @@ static void *thsave(void *arg) {
 done:
     buf_clear(&ctx->buf);
     buf_clear(&ctx->dst);
+    buf_clear(&ctx->ends);
     ctx->errnum = errno;
     return 0;
 }
-- 
2.43.0


From 290666fad2f24c3220c4013845c9cbbafe25ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 44/49] fix: error for a refused background command was sent
 despite noreply

---
 src/conn.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 8478ab9..92b6060 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -29,6 +29,7 @@ struct conn {
     int proto;              // connection protocol (memcache, http, etc)
     bool auth;              // user is authorized
     bool noreply;           // only for memcache
+    size_t mark;            // output length before the current command
     bool keepalive;         // only for http
     int httpvers;           // only for http
     struct args args;       // command args, if any
@@ -155,11 +156,13 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
-            size_t mark = net_conn_out_len(conn->conn5);
+            conn->mark = net_conn_out_len(conn->conn5);
             evcommand(conn, &conn->args);
-            if (conn->noreply && net_conn_out_len(conn->conn5) > mark) {
+            if (conn->noreply && 
+                net_conn_out_len(conn->conn5) > conn->mark)
+            {
                 // The client does not want the reply.
-                net_conn_out_setlen(conn->conn5, mark);
+                net_conn_out_setlen(conn->conn5, conn->mark);
             }
         }
         len -= n;
@@ -232,6 +235,8 @@ bool conn_bgwork(struct conn *conn, void(*work)(void *udata),
     ctx->work = work;
     ctx->done = done;
     if (!net_conn_bgwork(conn->conn5, work5, done5, ctx)) {
+        // The output may have been flushed, an error reply starts here.
+        conn->mark = net_conn_out_len(conn->conn5);
         xfree(ctx);
         return false;
     }
-- 
2.43.0


From 6436f424aaea7aa21a3f55d4739b3c3fa357e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:25 +0000
Subject: [PATCH 45/49] fix: an escaped question mark in a pattern matched any
 character

---
 src/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index b5ce93c..9bb2be2 100644
--- a/src/util.c
+++ b/src/util.c
@@ -406,9 +406,11 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
     while (plen > 0) {
+        bool esc = false;
         if (pat[0] == '\\') {
             if (plen == 1) return false;
             pat++; plen--; 
+            esc = true;
         } else if (pat[0] == '*') {
             if (plen == 1) return true;
             if (pat[1] == '*') {
@@ -424,7 +426,7 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
             continue;
         }
         if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
+        if ((esc || pat[0] != '?') && str[0] != pat[0]) return false;
         pat++; plen--;
         str++; slen--;
     }
-- 
2.43.0


From 73893e59e9567cb01fe72a58f119fc2401e62594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 46/49] fix: a pattern of many stars held a shard's lock for an
 exponential time

---
 src/cmds.c |  4 ++--
 src/util.c | 54 +++++++++++++++++++++++++++++-------------------------
 src/util.h |  3 +--
 3 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 84dbe34..d60cc39 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -524,7 +524,7 @@ static int keys_entry(int shard, int64_t time, const void *key, size_t keylen,
     (void)flags, (void)cas;
     struct keys_ctx *ctx = udata;
     if ((ctx->plen == 1 && *ctx->pattern == '*') || 
-        match(ctx->pattern, ctx->plen, key, keylen, 0))
+        match(ctx->pattern, ctx->plen, key, keylen))
     {
         buf_append_uvarint(&ctx->buf, keylen);
         buf_append(&ctx->buf, key, keylen);
@@ -2205,7 +2205,7 @@ static void scan_work(void *udata) {
         char buf[128];
         size_t keylen;
         const void *key = pogocache_entry_key(cache, entry, &keylen, buf);
-        if (match(ctx->pattern, ctx->plen, key, keylen, 0)) {
+        if (match(ctx->pattern, ctx->plen, key, keylen)) {
             if (ctx->len == ctx->cap) {
                 ctx->cap = ctx->cap ? ctx->cap * 2 : 16;
                 ctx->entries = xrealloc(ctx->entries, sizeof(void*)*ctx->cap);
diff --git a/src/util.c b/src/util.c
index 9bb2be2..2140dda 100644
--- a/src/util.c
+++ b/src/util.c
@@ -402,35 +402,39 @@ void binprint(const void *bin, size_t len) {
 
 // pattern matcher
 // see https://github.com/tidwall/match.c
-bool match(const char *pat, size_t plen, const char *str, size_t slen,
-    int depth)
-{
-    while (plen > 0) {
-        bool esc = false;
-        if (pat[0] == '\\') {
-            if (plen == 1) return false;
-            pat++; plen--; 
-            esc = true;
-        } else if (pat[0] == '*') {
-            if (plen == 1) return true;
-            if (pat[1] == '*') {
-                pat++; plen--;
-                continue;
-            }
-            if (depth == 127) {
-                return false;
-            }
-            if (match(pat+1, plen-1, str, slen, depth+1)) return true;
-            if (slen == 0) return false;
+bool match(const char *pat, size_t plen, const char *str, size_t slen) {
+    // The pattern and string following the most recent star, which is where 
+    // to continue, with the star taking one more character, upon a mismatch.
+    const char *spat = 0;
+    const char *sstr = 0;
+    size_t splen = 0;
+    size_t sslen = 0;
+    while (1) {
+        if (plen > 0 && pat[0] == '*') {
+            pat++; plen--;
+            if (plen == 0) return true;
+            spat = pat; splen = plen;
+            sstr = str; sslen = slen;
+            continue;
+        }
+        if (slen == 0) return plen == 0;
+        bool esc = plen > 1 && pat[0] == '\\';
+        if (esc) {
+            pat++; plen--;
+        }
+        // A backslash at the end of the pattern matches nothing.
+        if (plen > 0 && (esc || pat[0] != '\\') && 
+            ((!esc && pat[0] == '?') || pat[0] == str[0]))
+        {
+            pat++; plen--;
             str++; slen--;
             continue;
         }
-        if (slen == 0) return false;
-        if ((esc || pat[0] != '?') && str[0] != pat[0]) return false;
-        pat++; plen--;
-        str++; slen--;
+        if (!spat) return false;
+        sstr++; sslen--;
+        pat = spat; plen = splen;
+        str = sstr; slen = sslen;
     }
-    return slen == 0 && plen == 0;
 }
 
 // Convert an arg to a c-string. 
diff --git a/src/util.h b/src/util.h
index b92f63f..0462130 100644
--- a/src/util.h
+++ b/src/util.h
@@ -73,8 +73,7 @@ void *load_ptr(const uint8_t data[PTRSIZE]);
 void store_ptr(uint8_t data[PTRSIZE], void *ptr);
 uint8_t morris_incr(uint8_t morris, uint64_t rand);
 
-bool match(const char *pat, size_t plen, const char *str, size_t slen,
-    int depth);
+bool match(const char *pat, size_t plen, const char *str, size_t slen);
 
 #if defined(__x86_64__) || defined(__i386__)
 #define cpu_yield() __builtin_ia32_pause()
-- 
2.43.0


From b7fca7ad0f70893547f1810709624d857abbe834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:35 +0000
Subject: [PATCH 47/49] fix: the last option of an HTTP query ending in an
 ampersand was ignored

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index e3bf3f4..3add935 100644
--- a/src/http.c
+++ b/src/http.c
@@ -257,7 +257,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From 7e7c6d8bf3b7d10102c7b7c00aad569bd9a6434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 48/49] fix: escaped characters beyond the second plane were
 decoded to others

---
 src/postgres.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index b17e455..63da609 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296 && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        (((cp1 - 55296) << 10) | (cp2 - 56320)) + 65536 :
         65533;
 }
 
-- 
2.43.0


From 00db5426ae6a49510544501d6ba753642563bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:00 +0000
Subject: [PATCH 49/49] fix: skip to the sync after a failed extended query
 message

A Parse, Bind, Describe or Execute message that failed was answered with an
error and a ReadyForQuery, and the messages behind it were still processed.
So when the Parse of a statement failed, the Bind and Execute sent along with
it ran the statement which had that name before, and the client received two
ReadyForQuery messages, which shifts the replies to all following queries.
---
 src/conn.c     |  2 +-
 src/postgres.c | 12 ++++++++++++
 src/postgres.h |  1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 92b6060..82cb1ea 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -450,7 +450,7 @@ void stat_get_misses_incr(struct conn *conn) {
 }
 
 bool pg_execute(struct conn *conn) {
-    return conn->pg->execute;
+    return conn->pg->execute || conn->pg->skip;
 }
 
 struct pg *conn_pg(struct conn *conn) {
diff --git a/src/postgres.c b/src/postgres.c
index 63da609..7f561b3 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1081,6 +1081,10 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     if (len < msglen+1) {
         return 0;
     }
+    if (pg->skip && msgbyte != 'S' && msgbyte != 'X') {
+        // An extended query message failed. Skip the rest of the sequence.
+        return msglen+1;
+    }
     msglen -= 4;
     data += 5;
     ssize_t ret;
@@ -1117,6 +1121,13 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     if (ret == -1 || (size_t)ret != msglen) {
         return -1;
     }
+    if (pg->ready && pg->error && (msgbyte == 'P' || msgbyte == 'B' || 
+        msgbyte == 'D' || msgbyte == 'E'))
+    {
+        // Do not process any more messages, and do not send the "ready for
+        // query" message, until the sync.
+        pg->skip = 1;
+    }
     return msglen+5;
 }
 
@@ -1457,6 +1468,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->sync) {
         dprintf("====== pg_respond(pg->sync) =====\n");
         pg->execute = 0;
+        pg->skip = 0;
         pg_write_ready(conn, 'I');
         pg->sync = 0;
         return true;
diff --git a/src/postgres.h b/src/postgres.h
index e505699..02f9656 100644
--- a/src/postgres.h
+++ b/src/postgres.h
@@ -40,6 +40,7 @@ struct pg {
     bool execute;
     bool close;
     bool sync;
+    bool skip;     // extended query failed, skip messages until sync
     bool empty_query;
 
     char *desc;   // describe response
-- 
2.43.0

