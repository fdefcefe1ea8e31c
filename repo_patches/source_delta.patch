From c6447fff8cc0013f8f5d519488016e9f62f1b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:48 +0000
Subject: [PATCH 01/79] fix: critnib_iter skipped subtrees holding keys inside
 the requested range

The pruning test compared the range start with the subtree path with all
the bits *above* the subtree set instead of the bits below it, so e.g. no
entry was visited for min > 0 when keys differ in the top nibble.
---
 src/critnib/critnib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..691c6f5 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -797,7 +797,8 @@ static int iter(struct critnib_node *__restrict n, word min, word max,
     if (n->path > max) {
         return 1;
     }
-    if ((n->path | path_mask(n->shift)) < min) {
+    // the greatest key that this subtree can hold
+    if ((n->path | ~path_mask(n->shift)) < min) {
         return 0;
     }
 
-- 
2.43.0


From ae4da5b4bc287d6a3106b2c19bf55e2e3c4c6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 02/79] fix: critnib ordered search could miss entries when
 others are removed concurrently

find_predecessor()/find_successor() loaded a child twice and gave up when
the second load returned NULL, and neither they nor their callers went on
to the next sibling when a subtree had just been emptied. A lookup could
thus return NULL although a matching entry was present all the time.
---
 src/critnib/critnib.c | 94 +++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 48 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 691c6f5..95ce0c5 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -522,30 +522,25 @@ void *critnib_get(struct critnib *c, word key) {
  */
 static struct critnib_leaf *
 find_predecessor(struct critnib_node *__restrict n) {
-    while (1) {
-        int nib;
-        for (nib = NIB; nib >= 0; nib--) {
-            struct critnib_node *m;
-            utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
-            if (m) {
-                break;
-            }
+    for (int nib = NIB; nib >= 0; nib--) {
+        struct critnib_node *m;
+        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
+        if (!m) {
+            continue;
         }
 
-        if (nib < 0) {
-            return NULL;
+        if (is_leaf(m)) {
+            return to_leaf(m);
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
-
-        if (is_leaf(n)) {
-            return to_leaf(n);
+        /* the whole subtree could have been emptied in the meantime */
+        struct critnib_leaf *k = find_predecessor(m);
+        if (k) {
+            return k;
         }
     }
+
+    return NULL;
 }
 
 /*
@@ -604,13 +599,17 @@ static struct critnib_leaf *find_le(struct critnib_node *__restrict n,
     for (; nib > 0; nib--) {
         struct critnib_node *m;
         utils_atomic_load_acquire_ptr((void **)&n->child[nib - 1], (void **)&m);
-        if (m) {
-            n = m;
-            if (is_leaf(n)) {
-                return to_leaf(n);
-            }
+        if (!m) {
+            continue;
+        }
 
-            return find_predecessor(n);
+        if (is_leaf(m)) {
+            return to_leaf(m);
+        }
+
+        struct critnib_leaf *k = find_predecessor(m);
+        if (k) {
+            return k;
         }
     }
 
@@ -642,30 +641,25 @@ void *critnib_find_le(struct critnib *c, word key) {
  * internal: find_successor -- return the rightmost leaf in a subtree
  */
 static struct critnib_leaf *find_successor(struct critnib_node *__restrict n) {
-    while (1) {
-        unsigned nib;
-        for (nib = 0; nib <= NIB; nib++) {
-            struct critnib_node *m;
-            utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
-            if (m) {
-                break;
-            }
+    for (int nib = 0; nib <= NIB; nib++) {
+        struct critnib_node *m;
+        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&m);
+        if (!m) {
+            continue;
         }
 
-        if (nib > NIB) {
-            return NULL;
+        if (is_leaf(m)) {
+            return to_leaf(m);
         }
 
-        utils_atomic_load_acquire_ptr((void **)&n->child[nib], (void **)&n);
-
-        if (!n) {
-            return NULL;
-        }
-
-        if (is_leaf(n)) {
-            return to_leaf(n);
+        /* the whole subtree could have been emptied in the meantime */
+        struct critnib_leaf *k = find_successor(m);
+        if (k) {
+            return k;
         }
     }
+
+    return NULL;
 }
 
 /*
@@ -703,13 +697,17 @@ static struct critnib_leaf *find_ge(struct critnib_node *__restrict n,
     for (; nib < NIB; nib++) {
         struct critnib_node *m;
         utils_atomic_load_acquire_ptr((void **)&n->child[nib + 1], (void **)&m);
-        if (m) {
-            n = m;
-            if (is_leaf(n)) {
-                return to_leaf(n);
-            }
+        if (!m) {
+            continue;
+        }
 
-            return find_successor(n);
+        if (is_leaf(m)) {
+            return to_leaf(m);
+        }
+
+        struct critnib_leaf *k = find_successor(m);
+        if (k) {
+            return k;
         }
     }
 
-- 
2.43.0


From 40a5aa57980cf91befa12d480e2139d6ec3bfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 03/79] fix: disjoint pool leaked its bucket array on
 destruction

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..2842049 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -923,6 +923,7 @@ void disjoint_pool_finalize(void *pool) {
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
+    umf_ba_global_free(hPool->buckets);
     umfDisjointPoolSharedLimitsDestroy(hPool->default_shared_limits);
     critnib_delete(hPool->known_slabs);
 
-- 
2.43.0


From dd5d1ee3fe27c18a02e68b1b3a4c9e78f2d804a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 04/79] fix: disjoint pool took pointers past slab_min_size in
 a larger slab for foreign memory

---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 2842049..c99d0d6 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From 33cc8ebc7a5e6bfbafef986f97ad7e0dce2771ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 05/79] fix: disjoint pool destruction kept its share of the
 shared limits

---
 src/pool/pool_disjoint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index c99d0d6..b115507 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -257,6 +257,13 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
+    // give the budget used by the pooled slabs back to the shared limits
+    if (bucket->chunked_slabs_in_pool > 0) {
+        utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                                (uint64_t)bucket->chunked_slabs_in_pool *
+                                    bucket_slab_alloc_size(bucket));
+    }
+
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
-- 
2.43.0


From 3607df5057b22053c7901a833a26c760b9a3b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 06/79] fix: disjoint pool mishandled sizes above the largest
 bucket and impossible aligned requests

---
 src/pool/pool_disjoint.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index b115507..cc704c0 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -530,7 +530,7 @@ static void *disjoint_pool_allocate(disjoint_pool_t *pool, size_t size) {
 
     void *ptr = NULL;
 
-    if (size > pool->params.max_poolable_size) {
+    if (size > pool->params.max_poolable_size || size > CutOff) {
         umf_result_t ret =
             umfMemoryProviderAlloc(pool->provider, size, 0, &ptr);
         if (ret != UMF_RESULT_SUCCESS) {
@@ -731,6 +731,18 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
         return disjoint_pool_allocate(pool, size);
     }
 
+    if (!IS_POWER_OF_2(alignment)) {
+        LOG_ERR("alignment must be a power of 2");
+        TLS_last_allocation_error = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        return NULL;
+    }
+
+    if (size > SIZE_MAX - (alignment - 1)) {
+        LOG_ERR("requested size is too big");
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     size_t aligned_size;
     if (alignment <= disjoint_pool->provider_min_page_size) {
         // This allocation will be served from a Bucket which size is multiple
@@ -746,7 +758,8 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
 
     // Check if requested allocation size is within pooling limit.
     // If not, just request aligned pointer from the system.
-    if (aligned_size > disjoint_pool->params.max_poolable_size) {
+    if (aligned_size > disjoint_pool->params.max_poolable_size ||
+        aligned_size > CutOff) {
 
         umf_result_t ret = umfMemoryProviderAlloc(disjoint_pool->provider, size,
                                                   alignment, &ptr);
-- 
2.43.0


From 3c78185a626ff756728dd00f5b7f18580cfcf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 07/79] fix: repeated umfInit/umfTearDown cycles overflowed the
 global ctl tree

---
 src/libumf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..ea2fd69 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -30,7 +30,14 @@ static uint64_t umfRefCount = 0;
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
-void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
+void initialize_global_ctl(void) {
+    // the global tree outlives umfTearDown(), so register the node only once
+    static int registered = 0;
+    if (!registered) {
+        CTL_REGISTER_MODULE(NULL, umf);
+        registered = 1;
+    }
+}
 
 int umfInit(void) {
     if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
-- 
2.43.0


From 73e23bcdb357a2c2896bd971a80439b6d0d84552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 08/79] fix: disjoint pool read bounds of a neighbouring slab
 destroyed by another thread

---
 src/pool/pool_disjoint.c          | 39 ++++++++++++++++++++++++-------
 src/pool/pool_disjoint_internal.h |  5 ++++
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index cc704c0..6261ef2 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -210,8 +210,8 @@ static umf_result_t pool_register_slab(disjoint_pool_t *pool, slab_t *slab) {
     // TODO ASSERT_IS_ALIGNED((uintptr_t)slab_addr, bucket->size);
     LOG_DEBUG("slab: %p, start: %p", (void *)slab, slab_addr);
 
-    // NOTE: we don't need to lock the slabs map as the critnib already has a
-    // lock inside it
+    // NOTE: we don't need to lock the slabs map to insert an entry
+    // as the critnib already has a lock inside it
     int ret = critnib_insert(slabs, (uintptr_t)slab_addr, slab, 0);
     umf_result_t res = UMF_RESULT_SUCCESS;
     if (ret == ENOMEM) {
@@ -232,11 +232,28 @@ static umf_result_t pool_unregister_slab(disjoint_pool_t *pool, slab_t *slab) {
     // TODO ASSERT_IS_ALIGNED((uintptr_t)slab_addr, bucket->size);
     LOG_DEBUG("slab: %p, start: %p", (void *)slab, slab_addr);
 
+    utils_write_lock(&pool->known_slabs_lock);
     critnib_remove(slabs, (uintptr_t)slab_addr);
+    utils_write_unlock(&pool->known_slabs_lock);
 
     return UMF_RESULT_SUCCESS;
 }
 
+// Find the slab containing the given pointer.
+static slab_t *pool_find_slab(disjoint_pool_t *pool, void *ptr) {
+    utils_read_lock(&pool->known_slabs_lock);
+    slab_t *slab =
+        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
+    if (slab != NULL && ptr >= slab_get_end(slab)) {
+        // this slab belongs to some other memory, so it can be destroyed
+        // by another thread as soon as the lock is released
+        slab = NULL;
+    }
+    utils_read_unlock(&pool->known_slabs_lock);
+
+    return slab;
+}
+
 static bucket_t *
 create_bucket(size_t sz, disjoint_pool_t *pool,
               umf_disjoint_pool_shared_limits_handle_t shared_limits) {
@@ -609,6 +626,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
         goto err_free_disjoint_pool;
     }
 
+    if (utils_rwlock_init(&disjoint_pool->known_slabs_lock) == NULL) {
+        goto err_delete_known_slabs;
+    }
+
     // Generate buckets sized such as: 64, 96, 128, 192, ..., CutOff.
     // Powers of 2 and the value halfway between the powers of 2.
     size_t Size1 = disjoint_pool->params.min_bucket_size;
@@ -683,6 +704,9 @@ err_free_shared_limits:
     umfDisjointPoolSharedLimitsDestroy(disjoint_pool->default_shared_limits);
 
 err_free_known_slabs:
+    utils_rwlock_destroy_not_free(&disjoint_pool->known_slabs_lock);
+
+err_delete_known_slabs:
     critnib_delete(disjoint_pool->known_slabs);
 
 err_free_disjoint_pool:
@@ -827,9 +851,8 @@ size_t disjoint_pool_malloc_usable_size(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
+    if (slab == NULL) {
         // memory comes directly from the provider
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
         umf_result_t ret = umfMemoryTrackerGetAllocInfo(ptr, &allocInfo);
@@ -856,10 +879,9 @@ umf_result_t disjoint_pool_free(void *pool, void *ptr) {
     }
 
     // check if given pointer is allocated inside any Disjoint Pool slab
-    slab_t *slab =
-        (slab_t *)critnib_find_le(disjoint_pool->known_slabs, (uintptr_t)ptr);
+    slab_t *slab = pool_find_slab(disjoint_pool, ptr);
 
-    if (slab == NULL || ptr >= slab_get_end(slab)) {
+    if (slab == NULL) {
 
         // regular free
         umf_alloc_info_t allocInfo = {NULL, 0, NULL};
@@ -944,6 +966,7 @@ void disjoint_pool_finalize(void *pool) {
 
     umf_ba_global_free(hPool->buckets);
     umfDisjointPoolSharedLimitsDestroy(hPool->default_shared_limits);
+    utils_rwlock_destroy_not_free(&hPool->known_slabs_lock);
     critnib_delete(hPool->known_slabs);
 
     umf_ba_global_free(hPool);
diff --git a/src/pool/pool_disjoint_internal.h b/src/pool/pool_disjoint_internal.h
index 7a63dd7..6333aeb 100644
--- a/src/pool/pool_disjoint_internal.h
+++ b/src/pool/pool_disjoint_internal.h
@@ -142,6 +142,11 @@ typedef struct disjoint_pool_t {
     // free()
     critnib *known_slabs; // (void *, slab_t *)
 
+    // A lookup in known_slabs may return a neighbouring slab that does not
+    // contain the given pointer. This lock keeps such a slab alive
+    // until its bounds are checked.
+    utils_rwlock_t known_slabs_lock;
+
     // Handle to the memory provider
     umf_memory_provider_handle_t provider;
 
-- 
2.43.0


From bb3683e92752affd0b03a4dfbcbd79dc0259efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 09/79] fix: memory tracker accessed entries released by other
 threads

---
 src/provider/provider_tracking.c | 74 ++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..8303281 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -39,6 +39,10 @@ struct umf_memory_tracker_t {
     // for another memory pool (nested memory pooling).
     critnib *alloc_segments_map[MAX_LEVELS_OF_ALLOC_SEGMENT_MAP];
     utils_mutex_t splitMergeMutex;
+    // Entries found in the maps may be released by another thread,
+    // so they can be accessed only with this lock taken for reading,
+    // and the maps can be modified only with this lock taken for writing.
+    utils_rwlock_t mapsLock;
     umf_ba_pool_t *ipc_info_allocator;
     critnib *ipc_segments_map;
 };
@@ -188,6 +192,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
     int level = 0;
     int found = 0;
 
+    utils_write_lock(&hTracker->mapsLock);
+
     // Find the most nested (in the highest level) entry
     // in the critnib maps that contains the given 'ptr' pointer.
     do {
@@ -206,7 +212,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                 // TODO: we need to support an arbitrary amount of layers in the future
                 LOG_ERR("tracker level is too high, ptr=%p, size=%zu", ptr,
                         size);
-                return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
+                umf_result = UMF_RESULT_ERROR_OUT_OF_RESOURCES;
+                goto unlock;
             }
             if (((uintptr_t)ptr + size) > (rkey + rsize)) {
                 LOG_ERR(
@@ -215,7 +222,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
                     "that exceeds the parent value (pool=%p, ptr=%p, size=%zu)",
                     (void *)pool, ptr, size, (void *)rvalue->pool, (void *)rkey,
                     (size_t)rsize);
-                return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+                umf_result = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+                goto unlock;
             }
             parent_key = rkey;
             parent_value = rvalue;
@@ -225,11 +233,11 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
 
     umf_result = umfMemoryTrackerAddAtLevel(hTracker, level, pool, ptr, size,
                                             parent_key, parent_value);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        return umf_result;
-    }
 
-    return UMF_RESULT_SUCCESS;
+unlock:
+    utils_write_unlock(&hTracker->mapsLock);
+
+    return umf_result;
 }
 
 static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
@@ -245,12 +253,15 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     uintptr_t parent_key = 0;
     int level = 0;
 
+    utils_write_lock(&hTracker->mapsLock);
+
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         hTracker, ptr, &level, &parent_key, &parent_value, 1 /* no_children */);
     if (!value) {
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
+        utils_write_unlock(&hTracker->mapsLock);
         return UMF_RESULT_ERROR_UNKNOWN;
     }
 
@@ -271,6 +282,8 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
         parent_value->n_children--;
     }
 
+    utils_write_unlock(&hTracker->mapsLock);
+
     umf_ba_free(hTracker->alloc_info_allocator, value);
 
     return UMF_RESULT_SUCCESS;
@@ -297,8 +310,10 @@ umfMemoryTrackerAddIpcSegment(umf_memory_tracker_handle_t hTracker,
     value->provider = provider;
     value->ipc_cache_value = cache_entry;
 
+    utils_write_lock(&hTracker->mapsLock);
     int ret =
         critnib_insert(hTracker->ipc_segments_map, (uintptr_t)ptr, value, 0);
+    utils_write_unlock(&hTracker->mapsLock);
     if (ret == 0) {
         LOG_DEBUG("IPC memory region is added, tracker=%p, ptr=%p, size=%zu, "
                   "provider=%p, cache_entry=%p",
@@ -325,7 +340,9 @@ umfMemoryTrackerRemoveIpcSegment(umf_memory_tracker_handle_t hTracker,
                                  const void *ptr) {
     assert(ptr);
 
+    utils_write_lock(&hTracker->mapsLock);
     void *value = critnib_remove(hTracker->ipc_segments_map, (uintptr_t)ptr);
+    utils_write_unlock(&hTracker->mapsLock);
 
     if (!value) {
         LOG_ERR("pointer %p not found in the ipc_segments_map", ptr);
@@ -379,6 +396,8 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     int level = 0;
     int found = 0;
 
+    utils_read_lock(&TRACKER->mapsLock);
+
     do {
         assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
         found = critnib_find(TRACKER->alloc_segments_map[level], (uintptr_t)ptr,
@@ -396,6 +415,7 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
              rvalue->n_children);
 
     if (!top_most_value) {
+        utils_read_unlock(&TRACKER->mapsLock);
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -405,6 +425,8 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
     pAllocInfo->baseSize = top_most_value->size;
     pAllocInfo->pool = top_most_value->pool;
 
+    utils_read_unlock(&TRACKER->mapsLock);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -428,9 +450,13 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
 
     uintptr_t rkey;
     tracker_ipc_info_t *rvalue = NULL;
+
+    utils_read_lock(&TRACKER->mapsLock);
+
     int found = critnib_find(TRACKER->ipc_segments_map, (uintptr_t)ptr, FIND_LE,
                              (void *)&rkey, (void **)&rvalue);
     if (!found || (uintptr_t)ptr >= rkey + rvalue->size) {
+        utils_read_unlock(&TRACKER->mapsLock);
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
                   (void *)TRACKER);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -440,6 +466,8 @@ umf_result_t umfMemoryTrackerGetIpcInfo(const void *ptr,
     pIpcInfo->baseSize = rvalue->size;
     pIpcInfo->provider = rvalue->provider;
 
+    utils_read_unlock(&TRACKER->mapsLock);
+
     return UMF_RESULT_SUCCESS;
 }
 
@@ -525,9 +553,11 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
+    utils_read_lock(&provider->hTracker->mapsLock);
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
         provider->hTracker, ptr, &level, &parent_key, &parent_value,
         1 /* no_children */);
+    utils_read_unlock(&provider->hTracker->mapsLock);
     if (!value) {
         LOG_ERR("region for split is not found in the tracker");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -547,6 +577,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    utils_write_lock(&provider->hTracker->mapsLock);
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     int cret =
         critnib_insert(provider->hTracker->alloc_segments_map[level],
@@ -577,9 +609,12 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
         // so it's unlikely but probably the best solution would be to try to preallocate everything
         // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
+        utils_write_unlock(&provider->hTracker->mapsLock);
         goto err;
     }
 
+    utils_write_unlock(&provider->hTracker->mapsLock);
+
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -628,17 +663,19 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_lock;
     }
 
+    utils_read_lock(&provider->hTracker->mapsLock);
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
         provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
         0 /* no_children */); // can have children
+    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
+        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        0 /* no_children */); // can have children
+    utils_read_unlock(&provider->hTracker->mapsLock);
     if (!lowValue) {
         LOG_FATAL("no left value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
-        0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -660,8 +697,6 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
-    mergedValue->n_children = lowValue->n_children + highValue->n_children;
-
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -669,8 +704,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto not_merged;
     }
 
+    utils_write_lock(&provider->hTracker->mapsLock);
+
     size_t lno = lowValue->n_children;
     size_t hno = highValue->n_children;
+    mergedValue->n_children = lno + hno;
 
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
@@ -681,13 +719,14 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     assert(cret == 0);
     (void)cret;
 
-    // free old value that we just replaced with mergedValue
-    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
-
     void *erasedhighValue = critnib_remove(
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    utils_write_unlock(&provider->hTracker->mapsLock);
+
+    // free old value that we just replaced with mergedValue
+    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -1211,6 +1250,10 @@ umf_memory_tracker_handle_t umfMemoryTrackerCreate(void) {
         goto err_destroy_alloc_info_allocator;
     }
 
+    if (!utils_rwlock_init(&handle->mapsLock)) {
+        goto err_destroy_split_merge_mutex;
+    }
+
     int i;
     for (i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
         handle->alloc_segments_map[i] = critnib_new();
@@ -1243,6 +1286,8 @@ err_destroy_alloc_segments_map:
             critnib_delete(handle->alloc_segments_map[i]);
         }
     }
+    utils_rwlock_destroy_not_free(&handle->mapsLock);
+err_destroy_split_merge_mutex:
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
 err_destroy_alloc_info_allocator:
     umf_ba_destroy(alloc_info_allocator);
@@ -1276,6 +1321,7 @@ void umfMemoryTrackerDestroy(umf_memory_tracker_handle_t handle) {
             handle->alloc_segments_map[i] = NULL;
         }
     }
+    utils_rwlock_destroy_not_free(&handle->mapsLock);
     utils_mutex_destroy_not_free(&handle->splitMergeMutex);
     umf_ba_destroy(handle->alloc_info_allocator);
     handle->alloc_info_allocator = NULL;
-- 
2.43.0


From 9b79d157ed0a388945ab2e2e37034c2e6009f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 10/79] fix: split and merge accepted regions tracked for
 another pool

---
 src/provider/provider_tracking.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 8303281..4fe9034 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -563,6 +563,11 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err;
     }
+    if (value->pool != provider->pool) {
+        LOG_ERR("region for split is used by another pool");
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        goto err;
+    }
     if (value->size != totalSize) {
         LOG_ERR("tracked size=%zu does not match requested size to split: %zu",
                 value->size, totalSize);
@@ -686,7 +691,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
-    if (lowValue->pool != highValue->pool) {
+    if (lowValue->pool != provider->pool ||
+        highValue->pool != provider->pool) {
         LOG_FATAL("pool mismatch");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
-- 
2.43.0


From d840e70d70e92ccacac5c84397f9701c9267de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 11/79] fix: failed allocation split left the upstream
 allocation split

---
 src/provider/provider_tracking.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 4fe9034..32ddf0d 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -611,10 +611,16 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // this cannot fail since we know the element exists (nothing to allocate)
         assert(cret == 0);
         (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
-        // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
         utils_write_unlock(&provider->hTracker->mapsLock);
+        // This can only happen due to ENOMEM so it's unlikely. Probably the best
+        // solution would be to try to preallocate everything (value and critnib
+        // nodes) before calling umfMemoryProviderAllocationSplit.
+        if (umfMemoryProviderAllocationMerge(provider->hUpstream, ptr, highPtr,
+                                             totalSize) != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to revert the split, ptr=%p, "
+                    "totalSize=%zu, firstSize=%zu",
+                    ptr, totalSize, firstSize);
+        }
         goto err;
     }
 
-- 
2.43.0


From abb27633c277eae640325524d4a65f851b61eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 12/79] fix: IPC handle cached before a split or merge was
 given out for the changed region

---
 src/provider/provider_tracking.c | 35 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 32ddf0d..2408efc 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -490,6 +490,23 @@ typedef struct umf_tracking_memory_provider_t {
 
 typedef struct umf_tracking_memory_provider_t umf_tracking_memory_provider_t;
 
+// Release the IPC handle cached for the region starting at `ptr`
+// (the handle describes the region as it was when the handle was created).
+static void dropCachedIpcHandle(umf_tracking_memory_provider_t *p, void *ptr) {
+    ipc_cache_value_t *cache_value =
+        (ipc_cache_value_t *)critnib_remove(p->ipcCache, (uintptr_t)ptr);
+    if (cache_value) {
+        umf_result_t ret = umfMemoryProviderPutIPCHandle(
+            p->hUpstream, cache_value->providerIpcData);
+        if (ret != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
+                    "ret = %d",
+                    ptr, ret);
+        }
+        umf_ba_global_free(cache_value);
+    }
+}
+
 static umf_result_t trackingAlloc(void *hProvider, size_t size,
                                   size_t alignment, void **_ptr) {
     umf_tracking_memory_provider_t *p =
@@ -575,6 +592,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    dropCachedIpcHandle(provider, ptr);
+
     ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                            firstSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -709,6 +728,9 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
+    dropCachedIpcHandle(provider, lowPtr);
+    dropCachedIpcHandle(provider, highPtr);
+
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
     if (ret != UMF_RESULT_SUCCESS) {
@@ -789,18 +811,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
         }
     }
 
-    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
-    if (value) {
-        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
-        ret = umfMemoryProviderPutIPCHandle(p->hUpstream,
-                                            cache_value->providerIpcData);
-        if (ret != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    ptr, size, ret);
-        }
-        umf_ba_global_free(value);
-    }
+    dropCachedIpcHandle(p, ptr);
 
     ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
     if (ret != UMF_RESULT_SUCCESS) {
-- 
2.43.0


From 5c9e57b241ca0827f7c61e7107b04d208b7b6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 13/79] fix: merge accepted regions that are not adjacent

---
 src/provider/provider_tracking.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 2408efc..4491f64 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -722,6 +722,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
+    if ((uintptr_t)lowPtr + lowValue->size != (uintptr_t)highPtr) {
+        LOG_FATAL("merged regions are not adjacent");
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        goto err_assert;
+    }
     if (lowValue->size + highValue->size != totalSize) {
         LOG_FATAL("lowValue->size + highValue->size != totalSize");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
-- 
2.43.0


From d10a9dd316c316adf32fc2d3de0a9a044ac4836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 14/79] fix: refused free with a wrong size changed the tracked
 size of the region

---
 src/provider/provider_tracking.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 4491f64..7a4cb52 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -241,8 +241,10 @@ unlock:
 }
 
 static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
-                                           const void *ptr) {
+                                           const void *ptr,
+                                           size_t *removedSize) {
     assert(ptr);
+    assert(removedSize);
 
     // TODO: there is no support for removing partial ranges (or multiple entries
     // in a single remove call) yet.
@@ -284,6 +286,7 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
 
     utils_write_unlock(&hTracker->mapsLock);
 
+    *removedSize = value->size;
     umf_ba_free(hTracker->alloc_info_allocator, value);
 
     return UMF_RESULT_SUCCESS;
@@ -798,6 +801,7 @@ err_lock:
 static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
     umf_result_t ret;
     umf_result_t ret_remove = UMF_RESULT_ERROR_UNKNOWN;
+    size_t tracked_size = 0;
     umf_tracking_memory_provider_t *p =
         (umf_tracking_memory_provider_t *)hProvider;
 
@@ -806,7 +810,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemove
     // resulting in inconsistent state.
     if (ptr) {
-        ret_remove = umfMemoryTrackerRemove(p->hTracker, ptr);
+        ret_remove = umfMemoryTrackerRemove(p->hTracker, ptr, &tracked_size);
         if (ret_remove != UMF_RESULT_SUCCESS) {
             // DO NOT return an error here, because the tracking provider
             // cannot change behaviour of the upstream provider.
@@ -827,11 +831,13 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
             return ret;
         }
 
-        if (umfMemoryTrackerAdd(p->hTracker, p->pool, ptr, size) !=
+        // `size` given by the caller could be the reason of the failure,
+        // so the size of the tracked region has to be restored.
+        if (umfMemoryTrackerAdd(p->hTracker, p->pool, ptr, tracked_size) !=
             UMF_RESULT_SUCCESS) {
             LOG_ERR(
                 "cannot add memory back to the tracker, ptr = %p, size = %zu",
-                ptr, size);
+                ptr, tracked_size);
         }
         return ret;
     }
-- 
2.43.0


From da8f652f5f39b10dd0ea7f0e296bf750f61be165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:51 +0000
Subject: [PATCH 15/79] fix: refused free of memory of another pool changed its
 owner

---
 src/provider/provider_tracking.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 7a4cb52..7c53858 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -241,6 +241,7 @@ unlock:
 }
 
 static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
+                                           umf_memory_pool_handle_t pool,
                                            const void *ptr,
                                            size_t *removedSize) {
     assert(ptr);
@@ -267,6 +268,13 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
         return UMF_RESULT_ERROR_UNKNOWN;
     }
 
+    if (value->pool != pool) {
+        LOG_ERR("pointer %p is tracked for another pool %p", ptr,
+                (void *)value->pool);
+        utils_write_unlock(&hTracker->mapsLock);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     value = critnib_remove(hTracker->alloc_segments_map[level], (uintptr_t)ptr);
     assert(value);
@@ -810,7 +818,8 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemove
     // resulting in inconsistent state.
     if (ptr) {
-        ret_remove = umfMemoryTrackerRemove(p->hTracker, ptr, &tracked_size);
+        ret_remove = umfMemoryTrackerRemove(p->hTracker, p->pool, ptr,
+                                            &tracked_size);
         if (ret_remove != UMF_RESULT_SUCCESS) {
             // DO NOT return an error here, because the tracking provider
             // cannot change behaviour of the upstream provider.
-- 
2.43.0


From 7be6384f794bfc986594ecae3f2c5193b7efe572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:31 +0000
Subject: [PATCH 16/79] fix: split and merge out of memory released a tracker
 entry still in use

---
 src/provider/provider_tracking.c | 64 ++++----------------------------
 1 file changed, 8 insertions(+), 56 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 7c53858..3ac5920 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -562,16 +562,6 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     tracker_alloc_info_t *parent_value = NULL;
     uintptr_t parent_key = 0;
 
-    tracker_alloc_info_t *splitValue =
-        umf_ba_alloc(provider->hTracker->alloc_info_allocator);
-    if (!splitValue) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
-
-    splitValue->pool = provider->pool;
-    splitValue->size = firstSize;
-    splitValue->n_children = 0;
-
     int r = utils_mutex_lock(&provider->hTracker->splitMergeMutex);
     if (r) {
         goto err_lock;
@@ -614,19 +604,9 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 
     utils_write_lock(&provider->hTracker->mapsLock);
 
-    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-    int cret =
-        critnib_insert(provider->hTracker->alloc_segments_map[level],
-                       (uintptr_t)ptr, (void *)splitValue, 1 /* update */);
-    // this cannot fail since we know the element exists (nothing to allocate)
-    assert(cret == 0);
-    (void)cret;
-
     void *highPtr = (void *)(((uintptr_t)ptr) + firstSize);
     size_t secondSize = totalSize - firstSize;
 
-    // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
-    // the value is the same anyway and we forbid removing that range concurrently
     ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
                                      highPtr, secondSize, parent_key,
                                      parent_value);
@@ -634,13 +614,6 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         LOG_ERR("failed to add the split region to the tracker, ptr=%p, "
                 "size=%zu, ret=%d",
                 highPtr, secondSize, ret);
-        // revert the split
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        cret = critnib_insert(provider->hTracker->alloc_segments_map[level],
-                              (uintptr_t)ptr, (void *)value, 1 /* update */);
-        // this cannot fail since we know the element exists (nothing to allocate)
-        assert(cret == 0);
-        (void)cret;
         utils_write_unlock(&provider->hTracker->mapsLock);
         // This can only happen due to ENOMEM so it's unlikely. Probably the best
         // solution would be to try to preallocate everything (value and critnib
@@ -654,10 +627,11 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
-    utils_write_unlock(&provider->hTracker->mapsLock);
+    // Nobody reads the entry while `mapsLock` is taken for writing,
+    // so it can be updated in place (nothing to allocate, so it cannot fail).
+    value->size = firstSize;
 
-    // free the original value
-    umf_ba_free(provider->hTracker->alloc_info_allocator, value);
+    utils_write_unlock(&provider->hTracker->mapsLock);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG(
@@ -669,8 +643,6 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
 err:
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 err_lock:
-    umf_ba_free(provider->hTracker->alloc_info_allocator, splitValue);
-
     LOG_ERR(
         "failed to split memory region: ptr=%p, totalSize=%zu, firstSize=%zu",
         ptr, totalSize, firstSize);
@@ -684,17 +656,6 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     umf_tracking_memory_provider_t *provider =
         (umf_tracking_memory_provider_t *)hProvider;
 
-    tracker_alloc_info_t *mergedValue =
-        umf_ba_alloc(provider->hTracker->alloc_info_allocator);
-
-    if (!mergedValue) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
-
-    mergedValue->pool = provider->pool;
-    mergedValue->size = totalSize;
-    mergedValue->n_children = 0;
-
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
@@ -758,16 +719,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     size_t lno = lowValue->n_children;
     size_t hno = highValue->n_children;
-    mergedValue->n_children = lno + hno;
 
-    // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
-    // the value is the same anyway and we forbid removing that range concurrently
-    int cret =
-        critnib_insert(provider->hTracker->alloc_segments_map[lowLevel],
-                       (uintptr_t)lowPtr, (void *)mergedValue, 1 /* update */);
-    // this cannot fail since we know the element exists (nothing to allocate)
-    assert(cret == 0);
-    (void)cret;
+    // Nobody reads the entry while `mapsLock` is taken for writing,
+    // so it can be updated in place (nothing to allocate, so it cannot fail).
+    lowValue->size = totalSize;
+    lowValue->n_children = lno + hno;
 
     void *erasedhighValue = critnib_remove(
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
@@ -775,8 +731,6 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     utils_write_unlock(&provider->hTracker->mapsLock);
 
-    // free old value that we just replaced with mergedValue
-    umf_ba_free(provider->hTracker->alloc_info_allocator, lowValue);
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -797,8 +751,6 @@ not_merged:
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
 err_lock:
-    umf_ba_free(provider->hTracker->alloc_info_allocator, mergedValue);
-
     LOG_ERR("failed to merge memory regions: lowPtr=%p (level=%i), highPtr=%p "
             "(level=%i), totalSize=%zu",
             lowPtr, lowLevel, highPtr, highLevel, totalSize);
-- 
2.43.0


From ead7b5015d84d5dfd7e11d9cb6bba0894293a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 17/79] fix: merge of nested regions left the parent region
 with a phantom child

---
 src/provider/provider_tracking.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 3ac5920..45b0ff8 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -659,6 +659,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
+    tracker_alloc_info_t *lowParent = NULL;
+    tracker_alloc_info_t *highParent = NULL;
 
     int r = utils_mutex_lock(&provider->hTracker->splitMergeMutex);
     if (r) {
@@ -667,10 +669,10 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     utils_read_lock(&provider->hTracker->mapsLock);
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
+        provider->hTracker, lowPtr, &lowLevel, NULL, &lowParent,
         0 /* no_children */); // can have children
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        provider->hTracker, highPtr, &highLevel, NULL, &highParent,
         0 /* no_children */); // can have children
     utils_read_unlock(&provider->hTracker->mapsLock);
     if (!lowValue) {
@@ -688,6 +690,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
+    if (lowParent != highParent) {
+        LOG_FATAL("merged regions do not belong to the same memory region");
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        goto err_assert;
+    }
     if (lowValue->pool != provider->pool ||
         highValue->pool != provider->pool) {
         LOG_FATAL("pool mismatch");
@@ -729,6 +736,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    if (lowParent) {
+        // two children of the parent region became one
+        lowParent->n_children--;
+    }
+
     utils_write_unlock(&provider->hTracker->mapsLock);
 
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
-- 
2.43.0


From 53a8cbc24616e3876f272fac34112c2df1c896fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 18/79] fix: evicted IPC mapping was closed on the provider of
 the new one

---
 src/ipc_cache.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..9be0af3 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -35,6 +35,8 @@ typedef struct ipc_opened_cache_entry_t {
     uint64_t handle_id;
     hash_map_t
         *hash_table; // pointer to the hash table to which the entry belongs
+    ipc_opened_cache_eviction_cb_t
+        eviction_cb; // eviction callback of the cache the entry belongs to
     ipc_opened_cache_value_t value;
 } ipc_opened_cache_entry_t;
 
@@ -181,8 +183,6 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
                                   ipc_opened_cache_value_t **retEntry) {
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
-    bool evicted = false;
-    ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
         LOG_ERR("Some arguments are NULL, cache=%p, key=%p, retEntry=%p",
@@ -227,9 +227,10 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
-            evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
-            evicted_value.mapped_size = entry->value.mapped_size;
-            evicted = true;
+            // The entry can belong to another cache, so it has to be closed by
+            // the provider that opened it. The lock has to be held, because
+            // that cache (and its provider) can be destroyed at any time.
+            entry->eviction_cb(&entry->key, &entry->value);
         } else { // allocate the new entry
             entry = umf_ba_alloc(cache->global->cache_allocator);
             if (!entry) {
@@ -249,6 +250,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
         entry->ref_count = 0;
         entry->handle_id = handle_id;
         entry->hash_table = &cache->hash_table;
+        entry->eviction_cb = cache->eviction_cb;
         entry->value.mapped_size = 0;
         entry->value.mapped_base_ptr = NULL;
 
@@ -265,10 +267,6 @@ exit:
 
     utils_mutex_unlock(&(cache->global->cache_lock));
 
-    if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
-    }
-
     return ret;
 }
 
-- 
2.43.0


From 9daee8369d4d78d32af25f6e143068b2a3a52fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 19/79] fix: IPC cache entry was released to a wrong allocator

---
 src/ipc_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index 9be0af3..0783848 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -240,7 +240,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
-- 
2.43.0


From 1acaeefe63a0e97512474ae54d558ea28f57d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 20/79] fix: failed open of an IPC handle left its cache entry
 in use

---
 src/provider/provider_tracking.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 45b0ff8..c83bd7e 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1034,18 +1034,20 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
+    if (!value->mapped_base_ptr) {
+        // the upstream provider failed to open this IPC handle
+        return;
+    }
+    umf_result_t ret =
+        umfMemoryTrackerRemoveIpcSegment(p->hTracker, value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
     }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
+    ret = umfMemoryProviderCloseIPCHandle(
         p->hUpstream, value->mapped_base_ptr, value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
@@ -1148,6 +1150,9 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        // nobody is going to close this handle
+        umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From 2f22e662036a5109d60970cae00162f6a9312942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 21/79] fix: IPC mapping in use was closed when a newer handle
 of the same address was opened

---
 src/ipc_cache.c | 82 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index 0783848..afc24dd 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -8,6 +8,7 @@
  */
 
 #include <stdbool.h>
+#include <string.h>
 
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
@@ -27,12 +28,18 @@ struct ipc_opened_cache_entry_t;
 typedef struct ipc_opened_cache_entry_t *hash_map_t;
 typedef struct ipc_opened_cache_entry_t *lru_list_t;
 
+// A mapping opened with an outdated handle can be still in use when the new
+// handle of the same remote address is opened, so both need their own entry.
+typedef struct ipc_opened_cache_hash_key_t {
+    ipc_opened_cache_key_t key;
+    uint64_t handle_id;
+} ipc_opened_cache_hash_key_t;
+
 typedef struct ipc_opened_cache_entry_t {
     UT_hash_handle hh;
     struct ipc_opened_cache_entry_t *next, *prev;
-    ipc_opened_cache_key_t key;
+    ipc_opened_cache_hash_key_t hash_key;
     uint64_t ref_count;
-    uint64_t handle_id;
     hash_map_t
         *hash_table; // pointer to the hash table to which the entry belongs
     ipc_opened_cache_eviction_cb_t
@@ -167,7 +174,7 @@ void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t cache) {
         DL_DELETE(cache->global->lru_list, entry);
         HASH_DEL(cache->hash_table, entry);
         cache->global->cur_size -= 1;
-        cache->eviction_cb(&entry->key, &entry->value);
+        cache->eviction_cb(&entry->hash_key.key, &entry->value);
         utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
         umf_ba_free(cache->global->cache_allocator, entry);
     }
@@ -177,6 +184,37 @@ void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t cache) {
     umf_ba_global_free(cache);
 }
 
+// Find the entry to be replaced with a new one: an outdated mapping of the same
+// remote address or, if max_size is set and the cache is full, the least
+// recently used mapping. Only entries with ref_count == 0 can be evicted.
+static ipc_opened_cache_entry_t *
+getEvictionCandidate(ipc_opened_cache_t *cache,
+                     const ipc_opened_cache_key_t *key) {
+    ipc_opened_cache_global_t *global = cache->global;
+    bool is_full =
+        global->max_size != 0 && global->cur_size >= global->max_size;
+    ipc_opened_cache_entry_t *candidate = NULL;
+    ipc_opened_cache_entry_t *entry = NULL;
+
+    // the list starts with the most recently used entry
+    DL_FOREACH(global->lru_list, entry) {
+        uint64_t ref_count = 0;
+        utils_atomic_load_acquire_u64(&entry->ref_count, &ref_count);
+        if (ref_count != 0) {
+            continue;
+        }
+        if (entry->hash_table == &cache->hash_table &&
+            memcmp(&entry->hash_key.key, key, sizeof(*key)) == 0) {
+            return entry;
+        }
+        if (is_full) {
+            candidate = entry;
+        }
+    }
+
+    return candidate;
+}
+
 umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
                                   const ipc_opened_cache_key_t *key,
                                   uint64_t handle_id,
@@ -194,33 +232,21 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
 
     utils_mutex_lock(&(cache->global->cache_lock));
 
-    HASH_FIND(hh, cache->hash_table, key, sizeof(*key), entry);
-    if (entry && entry->handle_id == handle_id) { // cache hit
+    // zero out the paddings, they are a part of the key
+    ipc_opened_cache_hash_key_t hash_key;
+    memset(&hash_key, 0, sizeof(hash_key));
+    memcpy(&hash_key.key, key, sizeof(*key));
+    hash_key.handle_id = handle_id;
+
+    HASH_FIND(hh, cache->hash_table, &hash_key, sizeof(hash_key), entry);
+    if (entry) { // cache hit
         // update frequency list
         // remove the entry from the current position
         DL_DELETE(cache->global->lru_list, entry);
         // add the entry to the head of the list
         DL_PREPEND(cache->global->lru_list, entry);
     } else { //cache miss
-        // Look for eviction candidate
-        if (entry == NULL && cache->global->max_size != 0 &&
-            cache->global->cur_size >= cache->global->max_size) {
-            // If max_size is set and the cache is full, evict the least recently used entry.
-            // we need to search for the least recently used entry with ref_count == 0
-            // The utlist implementation of the doubly-linked list keeps a tail pointer in head->prev
-            ipc_opened_cache_entry_t *candidate = cache->global->lru_list->prev;
-            do {
-                uint64_t ref_count = 0;
-                utils_atomic_load_acquire_u64(&candidate->ref_count,
-                                              &ref_count);
-                if (ref_count == 0) {
-                    entry = candidate;
-                    break;
-                }
-                candidate = candidate->prev;
-            } while (candidate != cache->global->lru_list->prev);
-        }
-
+        entry = getEvictionCandidate(cache, key);
         if (entry) { // we have eviction candidate
             // remove the entry from the frequency list
             DL_DELETE(cache->global->lru_list, entry);
@@ -230,7 +256,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // The entry can belong to another cache, so it has to be closed by
             // the provider that opened it. The lock has to be held, because
             // that cache (and its provider) can be destroyed at any time.
-            entry->eviction_cb(&entry->key, &entry->value);
+            entry->eviction_cb(&entry->hash_key.key, &entry->value);
         } else { // allocate the new entry
             entry = umf_ba_alloc(cache->global->cache_allocator);
             if (!entry) {
@@ -246,15 +272,15 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
         }
 
-        entry->key = *key;
+        memcpy(&entry->hash_key, &hash_key, sizeof(hash_key));
         entry->ref_count = 0;
-        entry->handle_id = handle_id;
         entry->hash_table = &cache->hash_table;
         entry->eviction_cb = cache->eviction_cb;
         entry->value.mapped_size = 0;
         entry->value.mapped_base_ptr = NULL;
 
-        HASH_ADD(hh, cache->hash_table, key, sizeof(entry->key), entry);
+        HASH_ADD(hh, cache->hash_table, hash_key, sizeof(entry->hash_key),
+                 entry);
         DL_PREPEND(cache->global->lru_list, entry);
         cache->global->cur_size += 1;
     }
-- 
2.43.0


From eefc02009bbebb6d1fb6a1b0f5bf85e423047d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 22/79] fix: umfOpenIPCHandle crashed when called with NULL

---
 src/ipc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ipc.c b/src/ipc.c
index d4e5cc8..d513524 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -123,6 +123,11 @@ umf_result_t umfPutIPCHandle(umf_ipc_handle_t umfIPCHandle) {
 umf_result_t umfOpenIPCHandle(umf_ipc_handler_handle_t hIPCHandler,
                               umf_ipc_handle_t umfIPCHandle, void **ptr) {
 
+    if (hIPCHandler == NULL || umfIPCHandle == NULL || ptr == NULL) {
+        LOG_ERR("invalid argument.");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     // IPC handler is an instance of tracking memory provider
     umf_memory_provider_handle_t hProvider = hIPCHandler;
     if (hProvider->ops.version != UMF_PROVIDER_OPS_VERSION_CURRENT) {
-- 
2.43.0


From d1aebb7a7ff4d124afb0be5f735ad84f41106f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 23/79] fix: failed creation of a tracking provider leaked its
 caches

---
 src/provider/provider_tracking.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index c83bd7e..ac6ed9a 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -828,6 +828,7 @@ static umf_result_t trackingInitialize(void *params, void **ret) {
     *provider = *((umf_tracking_memory_provider_t *)params);
     if (provider->hUpstream == NULL || provider->hTracker == NULL ||
         provider->pool == NULL || provider->ipcCache == NULL) {
+        umf_ba_global_free(provider);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
@@ -1220,6 +1221,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create the cache of opened IPC handles");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1227,8 +1233,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From c95fdf92dbfa3cb7d04dbb7fdbbcfdd3db25eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 24/79] fix: opening an IPC handle out of memory terminated the
 process

---
 src/ipc_cache.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index afc24dd..ead9077 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -12,6 +12,8 @@
 
 #include "base_alloc_global.h"
 #include "ipc_cache.h"
+// do not exit() when uthash runs out of memory
+#define HASH_NONFATAL_OOM 1
 #include "uthash.h"
 #include "utils_common.h"
 #include "utils_concurrency.h"
@@ -281,6 +283,14 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
 
         HASH_ADD(hh, cache->hash_table, hash_key, sizeof(entry->hash_key),
                  entry);
+        if (entry->hh.tbl == NULL) {
+            LOG_ERR("Failed to add a new IPC cache entry to the hash table");
+            utils_mutex_destroy_not_free(&(entry->value.mmap_lock));
+            umf_ba_free(cache->global->cache_allocator, entry);
+            ret = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+            goto exit;
+        }
+
         DL_PREPEND(cache->global->lru_list, entry);
         cache->global->cur_size += 1;
     }
-- 
2.43.0


From aac72e498d9f094b8bf7522b15a335a3c62fbb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 25/79] fix: allocation of zero bytes split an empty block off
 the region

---
 src/coarse/coarse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..8819731 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1028,7 +1028,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
                           void **resultPtr) {
     umf_result_t umf_result = UMF_RESULT_ERROR_UNKNOWN;
 
-    if (coarse == NULL || resultPtr == NULL) {
+    if (coarse == NULL || resultPtr == NULL || size == 0) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From a8ac4290031bab3d7f967166999c208f95015e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 26/79] fix: failed allocation or split left the region
 allocator inconsistent with its provider

---
 src/coarse/coarse.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 8819731..8092012 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -169,6 +169,7 @@ static block_t *coarse_ravl_add_new(struct ravl *rtree, unsigned char *data,
 
     block->data = data;
     block->size = size;
+    block->used = false;
     block->free_list_ptr = NULL;
 
     ravl_data_t rdata = {(uintptr_t)block->data, block};
@@ -669,6 +670,18 @@ static umf_result_t can_provider_split(coarse_t *coarse, void *ptr,
     return umf_result;
 }
 
+// undo the split done by can_provider_split()
+static void undo_provider_split(coarse_t *coarse, void *ptr, size_t totalSize,
+                                size_t firstSize) {
+    void *highPtr = (unsigned char *)ptr + firstSize;
+    umf_result_t umf_result =
+        coarse->cb.merge(coarse->provider, ptr, highPtr, totalSize);
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("coarse_merge_cb(lowPtr=%p, highPtr=%p, totalSize=%zu) failed",
+                ptr, highPtr, totalSize);
+    }
+}
+
 static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
                                          size_t alignment, block_t **current) {
     (void)orig_size; // unused in the Release version
@@ -692,6 +705,7 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
             coarse_ravl_add_new(coarse->all_blocks, curr->data + padding,
                                 curr->size - padding, NULL);
         if (aligned_block == NULL) {
+            undo_provider_split(coarse, curr->data, curr->size, padding);
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
@@ -727,6 +741,7 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
     block_t *new_block = coarse_ravl_add_new(
         coarse->all_blocks, curr->data + size, curr->size - size, &new_node);
     if (new_block == NULL) {
+        undo_provider_split(coarse, curr->data, curr->size, size);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
@@ -1333,6 +1348,7 @@ umf_result_t coarse_split(coarse_t *coarse, void *ptr, size_t totalSize,
         coarse_ravl_add_new(coarse->all_blocks, block->data + firstSize,
                             block->size - firstSize, NULL);
     if (new_block == NULL) {
+        undo_provider_split(coarse, ptr, totalSize, firstSize);
         goto err_mutex_unlock;
     }
 
-- 
2.43.0


From 8c83f93032c7165f28d84d9d41f952df749868d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:26 +0000
Subject: [PATCH 27/79] fix: region allocator lost free blocks or crashed when
 out of memory

---
 src/coarse/coarse.c | 67 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 8092012..90ccf32 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -50,6 +50,10 @@ typedef struct coarse_t {
     // to the head of the list of free blocks of the same size
     struct ravl *free_blocks;
 
+    // true if some free blocks could not be added to the free_blocks tree,
+    // because of the lack of memory for its nodes
+    bool unlisted_free_blocks;
+
     struct utils_mutex_t lock;
 
     // statistics
@@ -347,6 +351,13 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
+        if (head_node->head == NULL) { // do not leave an empty list
+            node = ravl_find(free_blocks, &head_node_data,
+                             RAVL_PREDICATE_EQUAL);
+            assert(node);
+            ravl_remove(free_blocks, node);
+            umf_ba_global_free(head_node);
+        }
         return -1; // out of memory
     }
 
@@ -355,6 +366,32 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
     return 0;
 }
 
+// free_blocks_add_or_defer - add a free block to the free_blocks tree now
+// or, if there is no memory for that, during one of the next allocations
+static void free_blocks_add_or_defer(coarse_t *coarse, block_t *block) {
+    if (free_blocks_add(coarse->free_blocks, block)) {
+        LOG_WARN("out of memory, adding a free block to the list is deferred "
+                 "(addr: %p, size: %zu)",
+                 (void *)block->data, block->size);
+        coarse->unlisted_free_blocks = true;
+    }
+}
+
+static void coarse_ravl_cb_add_unlisted(void *data, void *arg) {
+    block_t *block = ((ravl_data_t *)data)->value;
+    if (!block->used && !block->free_list_ptr) {
+        free_blocks_add_or_defer((coarse_t *)arg, block);
+    }
+}
+
+// free_blocks_add_unlisted - add all free blocks that could not be added before
+static void free_blocks_add_unlisted(coarse_t *coarse) {
+    if (coarse->unlisted_free_blocks) {
+        coarse->unlisted_free_blocks = false;
+        ravl_foreach(coarse->all_blocks, coarse_ravl_cb_add_unlisted, coarse);
+    }
+}
+
 // free_blocks_rm_ge - remove the first free block of a size greater or equal to the given size only if it can be properly aligned
 // If it was the last block, the head node is freed and removed from the tree.
 // It is used during memory allocation (looking for a free block).
@@ -600,7 +637,8 @@ static bool debug_check(coarse_t *provider) {
     ravl_foreach(provider->all_blocks, debug_verify_all_blocks_cb, &cb_args);
 
     assert(cb_args.num_all_blocks == stats.num_all_blocks);
-    assert(cb_args.num_free_blocks == stats.num_free_blocks);
+    assert(cb_args.num_free_blocks == stats.num_free_blocks ||
+           provider->unlisted_free_blocks);
     assert(cb_args.sum_used == provider->used_size);
     assert(cb_args.sum_blocks_size == provider->alloc_size);
     assert(provider->alloc_size >= provider->used_size);
@@ -685,7 +723,6 @@ static void undo_provider_split(coarse_t *coarse, void *ptr, size_t totalSize,
 static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
                                          size_t alignment, block_t **current) {
     (void)orig_size; // unused in the Release version
-    int rv;
 
     block_t *curr = *current;
 
@@ -712,10 +749,7 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
         curr->used = false;
         curr->size = padding;
 
-        rv = free_blocks_add(coarse->free_blocks, curr);
-        if (rv) {
-            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-        }
+        free_blocks_add_or_defer(coarse, curr);
 
         // use aligned block
         *current = aligned_block;
@@ -747,10 +781,7 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
 
     new_block->used = false;
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
-    if (rv) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_blocks_add_or_defer(coarse, get_node_block(new_node));
 
     return UMF_RESULT_SUCCESS;
 }
@@ -813,7 +844,7 @@ static block_t *find_free_block(struct ravl *free_blocks, size_t size,
     return NULL;
 }
 
-static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
+static void free_blocks_re_add(coarse_t *coarse, block_t *block) {
     assert(coarse);
 
     ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
@@ -823,7 +854,7 @@ static int free_blocks_re_add(coarse_t *coarse, block_t *block) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    return free_blocks_add(coarse->free_blocks, get_node_block(node));
+    free_blocks_add_or_defer(coarse, get_node_block(node));
 }
 
 static void ravl_cb_count(void *data, void *arg) {
@@ -1068,6 +1099,8 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
 
     assert(debug_check(coarse));
 
+    free_blocks_add_unlisted(coarse);
+
     // Find a block with greater or equal size using the given memory allocation strategy
     block_t *curr = find_free_block(coarse->free_blocks, size, alignment,
                                     coarse->allocation_strategy);
@@ -1089,7 +1122,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
         if (alignment > 0) {
             umf_result = create_aligned_block(coarse, size, alignment, &curr);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
         }
@@ -1098,7 +1131,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
             // Split the current block and put the new block after the one that we use.
             umf_result = split_current_block(coarse, curr, size);
             if (umf_result != UMF_RESULT_SUCCESS) {
-                (void)free_blocks_re_add(coarse, curr);
+                free_blocks_re_add(coarse, curr);
                 goto err_unlock;
             }
 
@@ -1209,11 +1242,7 @@ umf_result_t coarse_free(coarse_t *coarse, void *ptr, size_t bytes) {
     node = free_block_merge_with_prev(coarse, node);
     node = free_block_merge_with_next(coarse, node);
 
-    int rv = free_blocks_add(coarse->free_blocks, get_node_block(node));
-    if (rv) {
-        utils_mutex_unlock(&coarse->lock);
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    free_blocks_add_or_defer(coarse, get_node_block(node));
 
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
-- 
2.43.0


From b172fb38d1d3c1d68c3fe52ed3b1768358219679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 28/79] fix: metadata was never freed after the library was
 initialised again

ba_is_destroyed was set by umf_ba_destroy_global() and never reset, so after
umfTearDown() and another umfInit() umf_ba_global_free() released nothing.
---
 src/base_alloc/base_alloc_global.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..72efe02 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -73,6 +73,9 @@ static void umf_ba_create_global(void) {
     size_t smallestSize = BASE_ALLOC.ac_sizes[0];
     BASE_ALLOC.smallest_ac_size_log2 = utils_msb64(smallestSize);
 
+    // the allocator can be created again after it was destroyed
+    ba_is_destroyed = false;
+
     LOG_DEBUG("UMF base allocator created");
 }
 
-- 
2.43.0


From 9355f920aaa5eff234d25b790b261234a1a7960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 29/79] fix: metadata allocation crashed when out of memory and
 was corrupted at 4 GB

add_metadata_and_align() dereferenced NULL when no memory could be obtained,
and sizes or alignments that do not fit the 32-bit fields of the metadata
were accepted.
---
 src/base_alloc/base_alloc_global.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index 72efe02..b8f91d5 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -27,6 +27,9 @@ static bool ba_is_destroyed = false;
 
 #define ALLOC_METADATA_SIZE (sizeof(size_t))
 
+// limit of the total size of an allocation (with the metadata)
+#define MAX_TOTAL_SIZE (1ULL << 32)
+
 // allocation classes need to be consecutive powers of 2
 #define ALLOCATION_CLASSES                                                     \
     { 16, 32, 64, 128, 256 }
@@ -100,7 +103,10 @@ static int size_to_idx(size_t size) {
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
+
+    if (!ptr) {
+        return NULL; // out of memory
+    }
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
@@ -169,7 +175,8 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         return NULL;
     }
 
-    if (size > SIZE_MAX - ALLOC_METADATA_SIZE) {
+    // the metadata stores the total size and the offset in 32 bits each
+    if (size >= MAX_TOTAL_SIZE - ALLOC_METADATA_SIZE) {
         LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
         return NULL;
     }
@@ -178,7 +185,7 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
     size += ALLOC_METADATA_SIZE;
 
     if (alignment > ALLOC_METADATA_SIZE) {
-        if (size > SIZE_MAX - alignment) {
+        if (alignment >= MAX_TOTAL_SIZE - size) {
             LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
             return NULL;
         }
-- 
2.43.0


From 5cc70dfc0d9c4e72c8bd5052abf1c5c491d81a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 30/79] fix: linear allocator kept emptied memory when it grew

A pool whose allocations had all been freed while it was the active one was
never released, so alternating allocations and frees grew without bound.
---
 src/base_alloc/base_alloc_linear.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..d1e9f3a 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -167,6 +167,15 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         pool->metadata.data_ptr = data_ptr;
         pool->metadata.size_left = size_left;
 
+        // The active pool becomes inactive now. All its allocations
+        // may have been freed already, so no further free will release it.
+        umf_ba_next_linear_pool_t *old_pool = pool->next_pool;
+        if (old_pool && old_pool->pool_n_allocs == 0) {
+            pool->next_pool = old_pool->next_pool;
+            _DEBUG_EXECUTE(pool->metadata.n_pools--);
+            ba_os_free(old_pool, old_pool->pool_size);
+        }
+
         // add the new pool to the list of pools
         new_pool->next_pool = pool->next_pool;
         pool->next_pool = new_pool;
-- 
2.43.0


From cb3e1425b7964dd05bf400c4e03e803266f55c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:56 +0000
Subject: [PATCH 31/79] fix: control trees of built-in providers and pools were
 never freed

---
 src/ctl/ctl.c                     | 17 -----------------
 src/ctl/ctl.h                     | 19 +++++++++++++++++--
 src/pool/pool_scalable.c          |  7 +++----
 src/provider/provider_os_memory.c |  9 ++++-----
 4 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..23772fd 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -36,8 +36,6 @@
 #include <stdio.h>
 #endif
 
-#define CTL_MAX_ENTRIES 100
-
 #define MAX_CONFIG_FILE_LEN (1 << 20) /* 1 megabyte */
 
 #define CTL_STRING_QUERY_SEPARATOR ";"
@@ -49,21 +47,6 @@
 static int ctl_global_first_free = 0;
 static umf_ctl_node_t CTL_NODE(global)[CTL_MAX_ENTRIES];
 
-/*
- * This is the top level node of the ctl tree structure. Each node can contain
- * children and leaf nodes.
- *
- * Internal nodes simply create a new path in the tree whereas child nodes are
- * the ones providing the read/write functionality by the means of callbacks.
- *
- * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
- * convenience.
- */
-struct ctl {
-    umf_ctl_node_t root[CTL_MAX_ENTRIES];
-    int first_free;
-};
-
 void *Zalloc(size_t sz) {
     void *ptr = umf_ba_global_alloc(sz);
     if (ptr) {
diff --git a/src/ctl/ctl.h b/src/ctl/ctl.h
index 968998f..b17700d 100644
--- a/src/ctl/ctl.h
+++ b/src/ctl/ctl.h
@@ -27,8 +27,6 @@
 extern "C" {
 #endif
 
-struct ctl;
-
 typedef struct ctl_index_utlist {
     const char *name;
     long value;
@@ -98,6 +96,23 @@ typedef struct ctl_node {
     const struct ctl_node *children;
 } umf_ctl_node_t;
 
+#define CTL_MAX_ENTRIES 100
+
+/*
+ * This is the top level node of the ctl tree structure. Each node can contain
+ * children and leaf nodes.
+ *
+ * Internal nodes simply create a new path in the tree whereas child nodes are
+ * the ones providing the read/write functionality by the means of callbacks.
+ *
+ * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
+ * convenience.
+ */
+struct ctl {
+    umf_ctl_node_t root[CTL_MAX_ENTRIES];
+    int first_free;
+};
+
 struct ctl *ctl_new(void);
 void ctl_delete(struct ctl *stats);
 
diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..e4da4dd 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -116,7 +116,7 @@ static const char *tbb_symbol[TBB_POOL_SYMBOLS_MAX] = {
 #endif
 };
 
-struct ctl *pool_scallable_ctl_root;
+static struct ctl pool_scallable_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -430,8 +430,7 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_pool_ctl(void) {
-    pool_scallable_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
+    CTL_REGISTER_MODULE(&pool_scallable_ctl_root, params);
 }
 
 static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
@@ -439,7 +438,7 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
-    return ctl_query(pool_scallable_ctl_root, pool_provider,
+    return ctl_query(&pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
 }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..cf0c095 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -170,7 +170,7 @@ static const char *Native_error_str[] = {
         "HWLOC topology discovery failed",
 };
 
-struct ctl *os_memory_ctl_root;
+static struct ctl os_memory_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -257,9 +257,8 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_os_ctl(void) {
-    os_memory_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(os_memory_ctl_root, params);
-    CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, params);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, stats);
 }
 
 static void os_store_last_native_error(int32_t native_error, int errno_value) {
@@ -1533,7 +1532,7 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
-    return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
+    return ctl_query(&os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg);
 }
 
-- 
2.43.0


From 730e71a8e20bbe76293129ccd15725fb57855166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 32/79] fix: failed creation of an OS provider leaked or
 returned an invalid result

---
 src/provider/provider_os_memory.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index cf0c095..4e6e396 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -324,7 +324,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
@@ -454,7 +455,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -465,7 +466,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
@@ -658,7 +659,11 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -726,7 +731,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -748,8 +753,14 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
+    if (os_provider->shm_name[0] != '\0') {
+        (void)utils_shm_unlink(os_provider->shm_name);
+    }
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
+    umf_ba_global_free(os_provider->partitions);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
 err_destroy_hwloc_topology:
-- 
2.43.0


From a1e51ad993a3417f86f44be9dd6d7e7bcba683c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 33/79] fix: OS provider never closed its shared memory file

---
 src/provider/provider_os_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 4e6e396..809eb9c 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -775,6 +775,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From c08299e852b6e83dc79e09876346440f9a662c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 34/79] fix: shared memory file ranges of the OS provider were
 misaligned, lost or shared by allocations

---
 src/provider/provider_os_memory.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 809eb9c..0dbb91a 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -842,9 +842,19 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
                               size_t *fd_offset) {
     assert(out_addr);
 
-    size_t extended_length = length;
+    // only whole pages can be mapped
+    size_t extended_length = ALIGN_UP_SAFE(length, page_size);
+    if (extended_length == 0) {
+        LOG_ERR("incorrect size: %zu", length);
+        return -1;
+    }
 
     if (alignment > page_size) {
+        if (extended_length > SIZE_MAX - alignment) {
+            LOG_ERR("size is too big: %zu", length);
+            return -1;
+        }
+
         // We have to increase length by alignment to be able to "cut out"
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
@@ -860,7 +870,7 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (extended_length > max_fd_size - *fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
@@ -875,6 +885,13 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
+        if (fd > 0 && utils_mutex_lock(lock_fd) == 0) {
+            // give the range of the file back, unless a next one is in use
+            if (*fd_size == *fd_offset + extended_length) {
+                *fd_size = *fd_offset;
+            }
+            utils_mutex_unlock(lock_fd);
+        }
         return -1;
     }
 
@@ -892,6 +909,9 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         size_t head_len = aligned_addr - addr;
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
+            if (fd > 0) {
+                *fd_offset += head_len;
+            }
         }
 
         // tail address has to page-aligned
-- 
2.43.0


From 032fcd9c767cebf7873b6c76952dd93c4d1009e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 35/79] fix: OS provider lost track of the file offset of an
 allocation

---
 src/provider/provider_os_memory.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 0dbb91a..b68b406 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1202,6 +1202,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
             LOG_ERR("os_alloc(): inserting a value to the file descriptor "
                     "offset map failed (addr=%p, offset=%zu)",
                     addr, fd_offset);
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
     }
 
@@ -1244,13 +1246,21 @@ static umf_result_t os_free(void *provider, void *ptr, size_t size) {
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
 
+    void *fd_offset_value = NULL;
     if (os_provider->fd > 0) {
-        critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
+        fd_offset_value =
+            critnib_remove(os_provider->fd_offset_map, (uintptr_t)ptr);
     }
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
     if (ret) {
+        int saved_errno = errno;
+        if (fd_offset_value) {
+            (void)critnib_insert(os_provider->fd_offset_map, (uintptr_t)ptr,
+                                 fd_offset_value, 0 /* update */);
+        }
+        errno = saved_errno;
         os_store_last_native_error(UMF_OS_RESULT_ERROR_FREE_FAILED, errno);
         LOG_PERR("memory deallocation failed");
 
-- 
2.43.0


From a8fbe4fba47653f82e3b20e539a103bd7a3c7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 36/79] fix: OS provider accepted a split inside a page

---
 src/provider/provider_os_memory.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index b68b406..4098e54 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1369,6 +1369,15 @@ static umf_result_t os_allocation_split(void *provider, void *ptr,
     (void)totalSize;
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
+
+    // both parts have to be freed separately and only whole pages can be freed
+    if (firstSize % utils_get_page_size()) {
+        LOG_ERR("os_allocation_split(): size of the first part (%zu) is not a "
+                "multiple of the page size",
+                firstSize);
+        return UMF_RESULT_ERROR_INVALID_ALIGNMENT;
+    }
+
     if (os_provider->fd < 0) {
         return UMF_RESULT_SUCCESS;
     }
-- 
2.43.0


From 67034f6842f9d3fae3c4920f6abd4b0c02942cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 37/79] fix: asking for the last native error crashed when
 there was none

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 4098e54..7abbdba 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
-- 
2.43.0


From cabc92953d6fed707adfba1ed333157b472caac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 38/79] fix: file provider: count the bytes cut out for
 alignment in the file offset

---
 src/provider/provider_file_memory.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..005e05f 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -378,10 +378,6 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         file_provider->size_fd = new_size_fd;
     }
 
-    if (aligned_offset_fd > offset_fd) {
-        file_provider->offset_fd = aligned_offset_fd;
-    }
-
     ASSERT_IS_ALIGNED(extended_size, page_size);
     ASSERT_IS_ALIGNED(aligned_offset_fd, page_size);
 
@@ -411,6 +407,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->base_mmap = (void *)aligned_ptr;
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
+    // the bytes before aligned_ptr were cut out of the mapping of the file
+    file_provider->offset_fd =
+        aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 77883e3280dafcd423a1cb951d7cedcf7856fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 39/79] fix: file provider: do not hand out memory beyond the
 current mapping

---
 src/provider/provider_file_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 005e05f..3dd3cdf 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -453,7 +453,8 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From 8ccc6d9d453e9937377ffecc3bbd683baf275f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 40/79] fix: file provider: fail if a new mapping cannot be
 recorded

---
 src/provider/provider_file_memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 3dd3cdf..118d5b7 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -394,6 +394,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        // file_finalize() would not unmap it
+        utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From ed32a419b8d82621a2b5318aef9e6416b0e18209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 41/79] fix: file provider: merge only blocks with contiguous
 file offsets

---
 src/provider/provider_file_memory.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 118d5b7..7397fd6 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -683,7 +683,6 @@ static umf_result_t file_allocation_merge(void *provider, void *lowPtr,
 
 static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
                                              void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     file_memory_provider_t *file_provider = (file_memory_provider_t *)provider;
@@ -691,8 +690,20 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
-    void *value =
-        critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
+    void *value = critnib_get(file_provider->fd_offset_map, (uintptr_t)highPtr);
+    void *low_value =
+        critnib_get(file_provider->fd_offset_map, (uintptr_t)lowPtr);
+    if (value != NULL && low_value != NULL &&
+        (uintptr_t)value - (uintptr_t)low_value !=
+            (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        // The blocks are adjacent in the address space, but not in the file,
+        // so they cannot be described by one IPC handle.
+        LOG_DEBUG("not merging %p with %p - different parts of the file",
+                  lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
+    value = critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
         LOG_ERR("removing a value from the file descriptor offset map failed "
                 "(addr=%p)",
-- 
2.43.0


From 869cb1fd3a82cf5f10233718fd9717d74a905dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 42/79] fix: file provider: open blocks that do not start at a
 page boundary of the file

---
 src/provider/provider_file_memory.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 7397fd6..b1926a2 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -794,13 +794,10 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
     size_t offset_aligned = file_ipc_data->offset_fd;
     size_t size_aligned = file_ipc_data->size;
 
-    if (file_provider->is_fsdax) {
-        // It is just a workaround for case when
-        // file_alloc() was called with the size argument
-        // that is not a multiplier of FSDAX_PAGE_SIZE_2MB.
-        utils_align_ptr_down_size_up((void **)&offset_aligned, &size_aligned,
-                                     FSDAX_PAGE_SIZE_2MB);
-    }
+    // The block may not start at a page boundary and its size may not be
+    // a multiple of the page size.
+    utils_align_ptr_down_size_up((void **)&offset_aligned, &size_aligned,
+                                 file_provider->page_size);
 
     fd = utils_file_open(file_ipc_data->path);
     if (fd == -1) {
@@ -827,7 +824,7 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
               file_ipc_data->path, size_aligned, file_ipc_data->protection,
               file_ipc_data->visibility, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    *ptr = addr + (file_ipc_data->offset_fd - offset_aligned);
 
     return ret;
 }
@@ -840,12 +837,8 @@ static umf_result_t file_close_ipc_handle(void *provider, void *ptr,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    if (file_provider->is_fsdax) {
-        // It is just a workaround for case when
-        // file_alloc() was called with the size argument
-        // that is not a multiplier of FSDAX_PAGE_SIZE_2MB.
-        utils_align_ptr_down_size_up(&ptr, &size, FSDAX_PAGE_SIZE_2MB);
-    }
+    // see file_open_ipc_handle()
+    utils_align_ptr_down_size_up(&ptr, &size, file_provider->page_size);
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
-- 
2.43.0


From c96a470c92d17c7baaa84f2c952127205d1f9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 43/79] fix: devdax provider: open blocks that do not start at
 a 2 MB boundary

---
 src/provider/provider_devdax_memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..8226ff4 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -499,7 +499,7 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
               devdax_ipc_data->path, length_aligned,
               devdax_ipc_data->protection, fd, offset_aligned, (void *)addr);
 
-    *ptr = addr;
+    *ptr = addr + (devdax_ipc_data->offset - offset_aligned);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -507,7 +507,8 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
 static umf_result_t devdax_close_ipc_handle(void *provider, void *ptr,
                                             size_t size) {
     (void)provider; // unused
-    size = ALIGN_UP(size, DEVDAX_PAGE_SIZE_2MB);
+    // see devdax_open_ipc_handle()
+    utils_align_ptr_down_size_up(&ptr, &size, DEVDAX_PAGE_SIZE_2MB);
 
     errno = 0;
     int ret = utils_munmap(ptr, size);
-- 
2.43.0


From 762784c2c4df1870d01139d4386bef7117c5b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 44/79] fix: file and devdax providers: report an error when
 the path is too long

---
 src/provider/provider_devdax_memory.c | 1 +
 src/provider/provider_file_memory.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8226ff4..e54a152 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -204,6 +204,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index b1926a2..9183e77 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -214,6 +214,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From 547deb24281221728d140f75be36066d24899cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 45/79] fix: file, devdax and fixed providers: valid message
 before any failure

---
 src/provider/provider_devdax_memory.c | 3 ++-
 src/provider/provider_file_memory.c   | 3 ++-
 src/provider/provider_fixed_memory.c  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index e54a152..b1f1dff 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 9183e77..790bc0e 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
-- 
2.43.0


From 6c16707f64d1d241bf09d17f03717411de0ddca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 46/79] fix: memory provider: IPC failures update the last
 failed provider

---
 src/memory_provider.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..dd58458 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -358,8 +358,10 @@ umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t hProvider,
                                   size_t *size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((size != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv,
-                                                  size);
+    umf_result_t res =
+        hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -369,8 +371,10 @@ umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle(hProvider->provider_priv, ptr,
-                                             size, providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle(
+        hProvider->provider_priv, ptr, size, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -378,8 +382,10 @@ umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t hProvider,
                               void *providerIpcData) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.put_ipc_handle(hProvider->provider_priv,
-                                             providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.put_ipc_handle(
+        hProvider->provider_priv, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -388,8 +394,10 @@ umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.open_ipc_handle(hProvider->provider_priv,
-                                              providerIpcData, ptr);
+    umf_result_t res = hProvider->ops.ipc.open_ipc_handle(
+        hProvider->provider_priv, providerIpcData, ptr);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -397,6 +405,8 @@ umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t hProvider,
                                 void *ptr, size_t size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.close_ipc_handle(hProvider->provider_priv, ptr,
-                                               size);
+    umf_result_t res = hProvider->ops.ipc.close_ipc_handle(
+        hProvider->provider_priv, ptr, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
-- 
2.43.0


From 6bb37be4b5f142b6a0fa6e04a57fe5484cdf87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 47/79] fix: os provider: free the bind mask when binding fails

---
 src/provider/provider_os_memory.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 7abbdba..c8750d7 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1083,16 +1083,21 @@ static membind_t membindFirst(os_memory_provider_t *provider, void *addr,
     return membind;
 }
 
+/// Free the bitmap that the membind iterator allocated for the split mode
+static void membindFini(os_memory_provider_t *provider, membind_t *membind) {
+    if (provider->mode == UMF_NUMA_MODE_SPLIT && provider->nodeset_len != 1) {
+        hwloc_bitmap_free(membind->bitmap);
+        membind->bitmap = NULL;
+    }
+}
+
 static membind_t membindNext(os_memory_provider_t *provider,
                              membind_t membind) {
     membind.alloc_size -= membind.bind_size;
     membind.addr += membind.bind_size;
     if (membind.alloc_size == 0) {
         membind.bind_size = 0;
-        if (provider->mode == UMF_NUMA_MODE_SPLIT &&
-            provider->nodeset_len != 1) {
-            hwloc_bitmap_free(membind.bitmap);
-        }
+        membindFini(provider, &membind);
         return membind;
     }
     assert(provider->nodeset_len != 1);
@@ -1187,6 +1192,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    membindFini(os_provider, &membind);
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From cd6e7796a98a4b1522a145d687ec8ec4eb481fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 48/79] fix: numa memtarget: look up nodes by physical id in
 attribute queries

---
 src/memtargets/memtarget_numa.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..4bc3b2a 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,19 +263,17 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From cbf7f5681edefa0be02afc14dfa3ae34d96ea5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 49/79] fix: memspace: allow cloning an empty memspace

---
 src/memspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..08073b7 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -155,7 +155,8 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     clone->size = hMemspace->size;
     clone->nodes =
         umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
-    if (!clone->nodes) {
+    // an empty memspace has no array of targets
+    if (!clone->nodes && clone->size != 0) {
         umf_ba_global_free(clone);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
-- 
2.43.0


From 20e9b8b19ffe6336aa8ed1fcb7c8ff385a961407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 50/79] fix: memspace: remove targets in place, so that the
 last one can be removed

---
 src/memspace.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 08073b7..de975bc 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -409,22 +409,12 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
-
-    for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
-        if (j != i) {
-            newNodes[z++] = hMemspace->nodes[j];
-        }
-    }
-
     umfMemtargetDestroy(hMemspace->nodes[i]);
-    umf_ba_global_free(hMemspace->nodes);
-    hMemspace->nodes = newNodes;
     hMemspace->size--;
+    for (; i < hMemspace->size; i++) {
+        hMemspace->nodes[i] = hMemspace->nodes[i + 1];
+    }
+
     return UMF_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 9b5a06fb094a9fd43a437d979b22b76bf63d3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 51/79] fix: memspace: filters do not re-add destroyed targets
 and accept empty memspaces

---
 src/memspace.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index de975bc..01cce93 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -428,6 +428,10 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS;
+    }
+
     size_t idx = 0;
     int ret;
     umf_memtarget_handle_t *nodesToRemove =
@@ -446,27 +450,20 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
+    for (size_t i = 0; i < idx; i++) {
         ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
         if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
+            // targets that are already removed are destroyed and cannot be
+            // added back, so indicate that memspace is corrupted
+            if (i != 0) {
+                ret = UMF_RESULT_ERROR_UNKNOWN;
+            }
+            goto free_mem;
         }
     }
 
-    umf_ba_global_free(nodesToRemove);
-    return UMF_RESULT_SUCCESS;
+    ret = UMF_RESULT_SUCCESS;
 
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
-            ret =
-                UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
-            break;
-        }
-    }
 free_mem:
     umf_ba_global_free(nodesToRemove);
     return ret;
-- 
2.43.0


From f7b5466692f01c0b7f4f5a337613e779c40c2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 52/79] fix: memspace: do not use freed memory when creating
 from NUMA array fails

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From 922700d669f72e541d6beefd78f0247fe034c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 53/79] fix: highest capacity memspace: free the clone when
 sorting fails

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..c6cf1c1 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From dc6cceeeaab3501a66f0e4ebb4d9fadc5bd4ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 54/79] fix: predefined memspaces: start afresh after the
 library is torn down

---
 src/memspaces/memspace_highest_bandwidth.c | 10 +++++-----
 src/memspaces/memspace_highest_capacity.c  | 10 +++++-----
 src/memspaces/memspace_host_all.c          | 10 +++++-----
 src/memspaces/memspace_lowest_latency.c    |  5 +++++
 src/topology.c                             | 11 ++++++-----
 5 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 93fede2..162109e 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -90,12 +90,12 @@ void umfMemspaceHighestBandwidthDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_BANDWIDTH) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_BANDWIDTH);
         UMF_MEMSPACE_HIGHEST_BANDWIDTH = NULL;
-
-        // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
 }
 
 static void umfMemspaceHighestBandwidthInit(void) {
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c6cf1c1..c981f3a 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -67,12 +67,12 @@ void umfMemspaceHighestCapacityDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_CAPACITY) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_CAPACITY);
         UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
-
-        // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
 }
 
 static void umfMemspaceHighestCapacityInit(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index 4b7db69..e22105d 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -85,12 +85,12 @@ void umfMemspaceHostAllDestroy(void) {
     if (UMF_MEMSPACE_HOST_ALL) {
         umfMemspaceDestroy(UMF_MEMSPACE_HOST_ALL);
         UMF_MEMSPACE_HOST_ALL = NULL;
-
-        // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
     }
+
+    // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
 }
 
 static void umfMemspaceHostAllInit(void) {
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..7ba127e 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -92,6 +92,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
     }
+
+    // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
 }
 
 static void umfMemspaceLowestLatencyInit(void) {
diff --git a/src/topology.c b/src/topology.c
index eab7992..eb32c26 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,12 +18,13 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
-
-        // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&topology_initialized, &is_initialized,
-               sizeof(topology_initialized));
+        topology = NULL;
     }
+
+    // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&topology_initialized, &is_initialized,
+           sizeof(topology_initialized));
 }
 
 static void umfCreateTopology(void) {
-- 
2.43.0


From d95acbd4cd301aee463a2b0d822ab47618f81a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 55/79] fix: predefined memspaces: return NULL instead of
 aborting when creation fails

---
 src/memspaces/memspace_highest_bandwidth.c | 1 -
 src/memspaces/memspace_highest_capacity.c  | 8 ++++++--
 src/memspaces/memspace_host_all.c          | 7 +++++--
 src/memspaces/memspace_lowest_latency.c    | 1 -
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 162109e..b3f2b02 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -105,7 +105,6 @@ static void umfMemspaceHighestBandwidthInit(void) {
         LOG_ERR(
             "Creating the highest bandwidth memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 }
 
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c981f3a..178faae 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t
 umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
@@ -78,8 +79,11 @@ void umfMemspaceHighestCapacityDestroy(void) {
 static void umfMemspaceHighestCapacityInit(void) {
     umf_result_t ret =
         umfMemspaceHighestCapacityCreate(&UMF_MEMSPACE_HIGHEST_CAPACITY);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR(
+            "Creating the highest capacity memspace failed with the error: %u",
+            ret);
+    }
 }
 
 umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index e22105d..c219d07 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -29,6 +29,7 @@ umf_const_memspace_handle_t umfMemspaceHostAllGet(void) {
 #include "memtarget_numa.h"
 #include "topology.h"
 #include "utils_concurrency.h"
+#include "utils_log.h"
 
 static umf_result_t umfMemspaceHostAllCreate(umf_memspace_handle_t *hMemspace) {
     if (!hMemspace) {
@@ -95,8 +96,10 @@ void umfMemspaceHostAllDestroy(void) {
 
 static void umfMemspaceHostAllInit(void) {
     umf_result_t ret = umfMemspaceHostAllCreate(&UMF_MEMSPACE_HOST_ALL);
-    assert(ret == UMF_RESULT_SUCCESS);
-    (void)ret;
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Creating the host all memspace failed with the error: %u",
+                ret);
+    }
 
     // TODO: Setup appropriate cleanup when 'HOST ALL' memspace becomes available
     // on Windows. 'HOST ALL' memspace depends on OS provider, which currently
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 7ba127e..78d87b3 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -106,7 +106,6 @@ static void umfMemspaceLowestLatencyInit(void) {
         LOG_ERR(
             "Creating the lowest latency memspace failed with the error: %u",
             ret);
-        assert(ret == UMF_RESULT_ERROR_NOT_SUPPORTED);
     }
 
 #if defined(_WIN32) && !defined(UMF_SHARED_LIBRARY)
-- 
2.43.0


From 0b30a6cdc2c37461802c5babac39ca0a27508501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 56/79] fix: ctl: reject names that continue past a leaf

---
 src/ctl/ctl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 23772fd..835a169 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -147,6 +147,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             LL_PREPEND(indexes, index_entry);
         }
 
+        if (nodes == NULL) { /* the previous node has no children */
+            goto error;
+        }
+
         for (n = &nodes[0]; n->name != NULL; ++n) {
             if (index_entry && n->type == CTL_NODE_INDEXED) {
                 break;
-- 
2.43.0


From 929e9aae446c42c15946c18203635a2b67b11133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 57/79] fix: ctl: pass the parsed indexes to handlers and free
 them

---
 src/ctl/ctl.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 835a169..cce3487 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -104,7 +104,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -144,7 +144,8 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            index_entry->name = NULL;
+            LL_PREPEND(*indexes, index_entry);
         }
 
         if (nodes == NULL) { /* the previous node has no children */
@@ -379,21 +380,17 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
      * query has been handled.
      */
     umf_ctl_index_utlist_t *indexes = NULL;
-    indexes = Zalloc(sizeof(*indexes));
-    if (!indexes) {
-        return -1;
-    }
 
     int ret = -1;
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From 883f41f5ab0319ee918aa7229fea303abba56064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 58/79] fix: ctl: do not pass the name of a subtree to its own
 handler

---
 src/ctl/ctl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index cce3487..301cb89 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -172,6 +172,11 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
         node_name = strtok_r(NULL, CTL_QUERY_NODE_SEPARATOR, &sptr);
     }
 
+    if (n != NULL && n->type == CTL_NODE_SUBTREE && node_name == NULL) {
+        // the name ends with the subtree
+        *name_offset = strlen(name);
+    }
+
     umf_ba_global_free(parse_str);
     return n;
 
-- 
2.43.0


From 54d1f1b99d761e4026527ab1657b396fcd147398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 59/79] fix: ctl: report failures of by_handle queries

---
 src/memory_pool.c     | 5 +++--
 src/memory_provider.c | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..1a51c02 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    return hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType)
+               ? -1
+               : 0;
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
diff --git a/src/memory_provider.c b/src/memory_provider.c
index dd58458..135aa4b 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,10 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    return hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0,
+                              extra_name, arg, queryType)
+               ? -1
+               : 0;
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 545ca65062809e30b7b1543adafb0357d5e12e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:00 +0000
Subject: [PATCH 60/79] fix: ctl: look names of an object up in its own tree
 only

The handlers of the global tree take the context for a handle, so a name
like umf.provider.by_handle.umf.provider.by_handle.x called through the
private data of a provider.
---
 src/ctl/ctl.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 301cb89..62a44a2 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -389,14 +389,10 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
     int ret = -1;
     size_t name_offset = 0;
 
-    const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
-
-    if (n == NULL && ctl) {
-        ctl_delete_indexes(indexes);
-        indexes = NULL;
-        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
-    }
+    // the handlers of the global tree expect ctx to be a pool or a provider
+    // handle, so they must not be reached from the tree of an object
+    const umf_ctl_node_t *n = ctl_find_node(ctl ? ctl->root : CTL_NODE(global),
+                                            name, &indexes, &name_offset);
 
     // if the appropriate node (leaf or subtree) is not found, then return error
     if (n == NULL ||
-- 
2.43.0


From 5f9191c0882eae38274f5be1fc728d49377e135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:56 +0000
Subject: [PATCH 61/79] fix: pool: check the pool handle in
 umfPoolGetMemoryProvider

---
 src/memory_pool.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index 1a51c02..de937bf 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -155,9 +155,8 @@ umf_memory_pool_handle_t umfPoolByPtr(const void *ptr) {
 
 umf_result_t umfPoolGetMemoryProvider(umf_memory_pool_handle_t hPool,
                                       umf_memory_provider_handle_t *hProvider) {
-    if (!hProvider) {
-        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
-    }
+    UMF_CHECK((hPool != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
+    UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
 
     if (hPool->flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING) {
         *hProvider = hPool->provider;
-- 
2.43.0


From 8eef3e06963fab2010a71afa941e0d0fb60de261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:57 +0000
Subject: [PATCH 62/79] fix: serialize umfInit and umfTearDown and undo a
 failed umfInit

A second thread returned from umfInit before the first one had created the
tracker, a teardown could destroy the state being created by another thread,
and a failed umfInit left the reference counted, so that the next call
reported success without a tracker or an IPC cache.
---
 src/libumf.c | 75 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index ea2fd69..6bd1271 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -7,6 +7,7 @@
  *
  */
 
+#include <stdbool.h>
 #include <stddef.h>
 
 #include "base_alloc_global.h"
@@ -18,6 +19,7 @@
 #include "provider_level_zero_internal.h"
 #include "provider_tracking.h"
 #include "utils_common.h"
+#include "utils_concurrency.h"
 #include "utils_log.h"
 #if !defined(UMF_NO_HWLOC)
 #include "topology.h"
@@ -27,6 +29,15 @@ umf_memory_tracker_handle_t TRACKER = NULL;
 
 static uint64_t umfRefCount = 0;
 
+// protects umfRefCount and serializes creating and destroying the global state
+static utils_mutex_t umfInitMutex;
+static bool umfInitMutexReady = false;
+static UTIL_ONCE_FLAG umfInitMutexOnce = UTIL_ONCE_FLAG_INIT;
+
+static void umfInitMutexCreate(void) {
+    umfInitMutexReady = (utils_mutex_init(&umfInitMutex) != NULL);
+}
+
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
@@ -39,36 +50,61 @@ void initialize_global_ctl(void) {
     }
 }
 
-int umfInit(void) {
-    if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
-        utils_log_init();
-        TRACKER = umfMemoryTrackerCreate();
-        if (!TRACKER) {
-            LOG_ERR("Failed to create memory tracker");
-            return -1;
-        }
+static int umfCreateGlobalState(void) {
+    utils_log_init();
+    umf_memory_tracker_handle_t tracker = umfMemoryTrackerCreate();
+    if (!tracker) {
+        LOG_ERR("Failed to create memory tracker");
+        umf_ba_destroy_global();
+        return -1;
+    }
 
-        LOG_DEBUG("UMF tracker created");
+    LOG_DEBUG("UMF tracker created");
 
-        umf_result_t umf_result = umfIpcCacheGlobalInit();
-        if (umf_result != UMF_RESULT_SUCCESS) {
-            LOG_ERR("Failed to initialize IPC cache");
-            return -1;
-        }
+    umf_result_t umf_result = umfIpcCacheGlobalInit();
+    if (umf_result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("Failed to initialize IPC cache");
+        umfMemoryTrackerDestroy(tracker);
+        umf_ba_destroy_global();
+        return -1;
+    }
 
-        LOG_DEBUG("UMF IPC cache initialized");
-        initialize_global_ctl();
+    LOG_DEBUG("UMF IPC cache initialized");
+    initialize_global_ctl();
+
+    TRACKER = tracker;
+    return 0;
+}
+
+int umfInit(void) {
+    utils_init_once(&umfInitMutexOnce, umfInitMutexCreate);
+    if (!umfInitMutexReady) {
+        LOG_ERR("Failed to create the initialization mutex");
+        return -1;
     }
 
-    if (TRACKER) {
+    utils_mutex_lock(&umfInitMutex);
+    int ret = 0;
+    if (umfRefCount == 0) {
+        ret = umfCreateGlobalState();
+    }
+    if (ret == 0) {
+        umfRefCount++;
         LOG_DEBUG("UMF library initialized");
     }
+    utils_mutex_unlock(&umfInitMutex);
 
-    return 0;
+    return ret;
 }
 
 void umfTearDown(void) {
-    if (utils_fetch_and_sub_u64(&umfRefCount, 1) == 1) {
+    utils_init_once(&umfInitMutexOnce, umfInitMutexCreate);
+    if (!umfInitMutexReady) {
+        return;
+    }
+
+    utils_mutex_lock(&umfInitMutex);
+    if (umfRefCount > 0 && --umfRefCount == 0) {
 #if !defined(_WIN32) && !defined(UMF_NO_HWLOC)
         umfMemspaceHostAllDestroy();
         umfMemspaceHighestCapacityDestroy();
@@ -101,6 +137,7 @@ void umfTearDown(void) {
         fini_tbb_global_state();
         LOG_DEBUG("UMF library finalized");
     }
+    utils_mutex_unlock(&umfInitMutex);
 }
 
 int umfGetCurrentVersion(void) { return UMF_VERSION_CURRENT; }
-- 
2.43.0


From ab3674c3d3b31ca4c13f5af4f854b499bf490394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 63/79] fix: scalable pool: check calloc for an arithmetic
 overflow

---
 src/pool/pool_scalable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index e4da4dd..c47c664 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -336,6 +336,12 @@ static void *tbb_malloc(void *pool, size_t size) {
 
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) {
+        LOG_ERR("calloc size overflow: %zu * %zu", num, size);
+        TLS_last_allocation_error = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        return NULL;
+    }
+
     size_t csize = num * size;
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From c2482be9e475fe9d7ed3c20f3a748c1edbca1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 64/79] fix: scalable pool: do not keep a closed TBB library

After a failed load the library was closed again at teardown, after a
successful one the symbols of the closed library were used by the next
pools, and a missing pool_msize was not noticed.
---
 src/pool/pool_scalable.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index c47c664..8df8266 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -151,11 +151,12 @@ static void init_tbb_callbacks_once(void) {
     if (!tbb_callbacks.pool_malloc || !tbb_callbacks.pool_realloc ||
         !tbb_callbacks.pool_aligned_malloc || !tbb_callbacks.pool_free ||
         !tbb_callbacks.pool_create_v1 || !tbb_callbacks.pool_destroy ||
-        !tbb_callbacks.pool_identify) {
+        !tbb_callbacks.pool_identify || !tbb_callbacks.pool_msize) {
         LOG_FATAL("Could not find all TBB symbols in %s", lib_name);
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
         }
+        tbb_callbacks.lib_handle = NULL;
         tbb_init_result = -1;
     }
 }
@@ -174,6 +175,12 @@ void fini_tbb_global_state(void) {
             LOG_ERR("TBB library cannot be unloaded");
         }
     }
+
+    // load the library again when it is needed after the next umfInit()
+    tbb_init_result = 0;
+    // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG set_once = UTIL_ONCE_FLAG_INIT;
+    memcpy(&tbb_initialized, &set_once, sizeof(tbb_initialized));
 }
 
 static void *tbb_raw_alloc_wrapper(intptr_t pool_id, size_t *raw_bytes) {
-- 
2.43.0


From 8961869db3ab137df5f8798841ac17772fbab518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 65/79] fix: base_alloc: linear: align blocks to 16 bytes

---
 src/base_alloc/base_alloc_linear.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index d1e9f3a..6e54904 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -23,8 +23,9 @@
 // minimum size of a single pool of the linear base allocator
 #define MINIMUM_LINEAR_POOL_SIZE (ba_os_get_page_size())
 
-// alignment of the linear base allocator
-#define MEMORY_ALIGNMENT (sizeof(uintptr_t))
+// alignment of the linear base allocator: it has to be suitable for any object,
+// because the proxy library hands its blocks out as the result of malloc()
+#define MEMORY_ALIGNMENT (2 * sizeof(uintptr_t))
 
 typedef struct umf_ba_next_linear_pool_t umf_ba_next_linear_pool_t;
 
-- 
2.43.0


From d5199d3aebd29c488d4ecab5a8a40b910a0d4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 66/79] fix: proxy_lib: do not copy overlapping memory with
 memcpy

---
 src/proxy_lib/proxy_lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..920617b 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -291,7 +291,8 @@ static inline void *ba_generic_realloc(umf_ba_linear_pool_t *pool, void *ptr,
         new_size = max_size;
     }
 
-    memcpy(new_ptr, ptr, new_size);
+    // the size of the old block is unknown, so the regions can overlap
+    memmove(new_ptr, ptr, new_size);
 
     // we can free the old ptr now
     umf_ba_linear_free(pool, ptr);
-- 
2.43.0


From 3ef7aedc6bce9cbee289cee384fe6997ce9afa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:46 +0000
Subject: [PATCH 67/79] fix: proxy_lib: check early requests for an arithmetic
 overflow

---
 src/proxy_lib/proxy_lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index 920617b..df75a31 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -316,6 +316,9 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (size > SIZE_MAX - alignment) {
+        return NULL;
+    }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
@@ -326,6 +329,9 @@ static inline void *ba_leak_malloc(size_t size) {
 
 static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
+    if (size && nmemb > SIZE_MAX / size) {
+        return NULL;
+    }
     // umf_ba_linear_alloc() returns zeroed memory
     // so ba_leak_aligned_alloc() does too
     return ba_leak_aligned_alloc(0, nmemb * size);
-- 
2.43.0


From e8a686bd78557afa618af4d52363601e24dae956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:38 +0000
Subject: [PATCH 68/79] fix: proxy_lib: handle a failed creation of the early
 allocator

---
 src/proxy_lib/proxy_lib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index df75a31..b44a4be 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -316,7 +316,7 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
-    if (size > SIZE_MAX - alignment) {
+    if (!Base_alloc_leak || size > SIZE_MAX - alignment) {
         return NULL;
     }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
@@ -344,11 +344,17 @@ static inline void *ba_leak_realloc(void *ptr, size_t size, size_t max_size) {
 
 static inline int ba_leak_free(void *ptr) {
     ba_leak_init_once();
+    if (!Base_alloc_leak) {
+        return -1; // ptr could not be allocated from it
+    }
     return umf_ba_linear_free(Base_alloc_leak, ptr);
 }
 
 static inline size_t ba_leak_pool_contains_pointer(void *ptr) {
     ba_leak_init_once();
+    if (!Base_alloc_leak) {
+        return 0; // ptr could not be allocated from it
+    }
     return umf_ba_linear_pool_contains_pointer(Base_alloc_leak, ptr);
 }
 
-- 
2.43.0


From 8ab24ddb9b7cead89f2a2837cb103e893dcb6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 69/79] fix: level zero provider: finalize the right provider
 when creation fails

---
 src/provider/provider_level_zero.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..af81e84 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -629,7 +629,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
-- 
2.43.0


From 2e891303969c9a4d9cf1c4b868db900e2c84c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 70/79] fix: level zero provider: free the memory that cannot
 be made resident

---
 src/provider/provider_level_zero.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index af81e84..2680a4b 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -481,6 +481,9 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            LOG_ERR("Cannot make the memory resident");
+            (void)g_ze_ops.zeMemFree(ze_provider->context, *resultPtr);
+            *resultPtr = NULL;
             return ze2umf_result(ze_result);
         }
     }
-- 
2.43.0


From 5f9d54d31052edeb77ba415aba1f40d905049d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 71/79] fix: level zero provider: refuse a free policy that is
 not available

---
 src/provider/provider_level_zero.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 2680a4b..a4761d2 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -579,6 +579,13 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    if (umfFreePolicyToZePolicy(ze_params->freePolicy) != 0 &&
+        !g_ze_ops.zeMemFreeExt) {
+        LOG_ERR("The memory free policy is not supported by the Level Zero "
+                "library");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
-- 
2.43.0


From c2ddf633f441fa7f874b29ca54e3b29a5cba7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 72/79] fix: level zero provider: set the message of the last
 native error

---
 src/provider/provider_level_zero.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4761d2..4ac2f49 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -658,6 +658,8 @@ static void ze_memory_provider_get_last_native_error(void *provider,
         return;
     }
 
+    // Level Zero does not provide error messages
+    *ppMessage = "";
     *pError = TLS_last_native_error;
 }
 
-- 
2.43.0


From 9d51f3e5f523cab6f6080e8211ed16f74236fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:27 +0000
Subject: [PATCH 73/79] fix: level zero provider: load the library again after
 a restart of UMF

---
 src/provider/provider_level_zero.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 4ac2f49..dbe228d 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -15,16 +15,25 @@
 #include <umf/providers/provider_level_zero.h>
 
 #include "provider_level_zero_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *ze_lib_handle = NULL;
+static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_ze_global_state_failed = false;
 
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
     }
+
+    // load the library again when it is needed after the next umfInit()
+    Init_ze_global_state_failed = false;
+    // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG set_once = UTIL_ONCE_FLAG_INIT;
+    memcpy(&ze_is_initialized, &set_once, sizeof(ze_is_initialized));
 }
 
 #if defined(UMF_NO_LEVEL_ZERO_PROVIDER)
@@ -115,7 +124,6 @@ umf_memory_provider_ops_t *umfLevelZeroMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 #include "ze_api.h"
@@ -189,8 +197,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
 static void store_last_native_error(int32_t native_error) {
-- 
2.43.0


From ec89effc3360225aea77f36e01866d3d17f3f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 74/79] fix: a region whose children do not start at its
 address can be merged

---
 src/provider/provider_tracking.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index ac6ed9a..680fb6f 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -73,10 +73,13 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
     assert(ptr);
 
     tracker_alloc_info_t *parent_value = NULL;
+    tracker_alloc_info_t *found_value = NULL;
     tracker_alloc_info_t *rvalue = NULL;
     uintptr_t parent_key = 0;
+    uintptr_t found_key = 0;
     uintptr_t rkey = 0;
     uint64_t rsize = 0;
+    int found_level = 0;
     int level = 0;
     int found = 0;
 
@@ -91,19 +94,24 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
 
         utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
 
-        if (found && (uintptr_t)ptr < rkey + rsize) {
-            if (rvalue->n_children) {
-                if (level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
-                    break;
-                }
-                level++;
-                parent_key = rkey;
-                parent_value = rvalue;
-            }
+        if ((uintptr_t)ptr >= rkey + rsize) {
+            break;
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
 
-    if (!rvalue || rkey != (uintptr_t)ptr) {
+        // The regions of one level are disjoint and the nested ones do not
+        // exceed their parent, so it is nested in the entry found so far.
+        parent_key = found_key;
+        parent_value = found_value;
+        found_key = rkey;
+        found_value = rvalue;
+        found_level = level;
+        level++;
+    } while (rvalue->n_children && level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
+
+    rvalue = found_value;
+    level = found_level;
+
+    if (!rvalue || found_key != (uintptr_t)ptr) {
         return NULL;
     }
 
-- 
2.43.0


From 31bf9a9a15c5dcd824efa113dc2da09693f1f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 75/79] fix: an option of UMF_LOG is ignored when its text
 occurs earlier

---
 src/utils/utils_common.c | 44 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..b06a0bf 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -59,33 +59,33 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
-    const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
+    const char *found;
+
+    // the text of the option can also be a part of another element of the list,
+    // so all its occurrences have to be checked
+    for (const char *pos = var; (found = strstr(pos, option)); pos = found + 1) {
+        // if found string is not at the beginning of var ensure it's preceded by ';'
+        if (found != var && *(found - 1) != ';') {
+            continue;
+        }
 
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+        const char *endFound = found + strlen(option);
+        if (!extraArg) {
+            // if there is no argument, matched string should end with ';' or '\0'
+            if (*endFound == '\0' || *endFound == ';') {
+                return found;
+            }
+            continue;
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
+        // check if matched string ends with ','
+        if (*endFound == ',') {
+            *extraArg = endFound + 1;
+            return found;
+        }
     }
 
-    *extraArg = endFound + 1;
-
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 425aeddf5460100e68f105a002774ef51cfb33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:53 +0000
Subject: [PATCH 76/79] fix: logger: every initialization opens the log file
 again and keeps the previous settings

---
 src/utils/utils_log.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 2fd28fc..4f09749 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -68,8 +68,15 @@ typedef struct {
     FILE *output;
 } utils_log_config_t;
 
+static const utils_log_config_t loggerDefaults = {0, 0, LOG_ERROR, LOG_ERROR,
+                                                  NULL};
+
 utils_log_config_t loggerConfig = {0, 0, LOG_ERROR, LOG_ERROR, NULL};
 
+// the log file opened by utils_log_init() and its name
+static FILE *logFile = NULL;
+static char logFileName[MAX_FILE_PATH + 1];
+
 static const char *level_to_str(utils_log_level_t l) {
     switch (l) {
     case LOG_DEBUG:
@@ -246,12 +253,19 @@ static const char *bool_to_str(int b) { return b ? "yes" : "no"; }
 
 void utils_log_init(void) {
     const char *envVar = getenv("UMF_LOG");
+    const char *arg;
+    FILE *openFile = NULL;
+
+    if (loggerConfig.output && loggerConfig.output == logFile) {
+        openFile = logFile;
+    }
+
+    loggerConfig = loggerDefaults;
 
     if (!envVar) {
-        return;
+        goto close_unused;
     }
 
-    const char *arg;
     if (utils_parse_var(envVar, "output:stdout", NULL)) {
         loggerConfig.output = stdout;
     } else if (utils_parse_var(envVar, "output:stderr", NULL)) {
@@ -272,24 +286,30 @@ void utils_log_init(void) {
             loggerConfig.output = stderr;
             LOG_ERR("Cannot open output file - path too long");
             loggerConfig.output = NULL;
-            return;
+            goto close_unused;
         }
 
         memcpy(file, arg, len);
         file[len] = '\0';
-        loggerConfig.output = fopen(file, "a");
+        if (openFile && strcmp(file, logFileName) == 0) {
+            loggerConfig.output = openFile;
+        } else {
+            loggerConfig.output = fopen(file, "a");
+        }
         if (!loggerConfig.output) {
             loggerConfig.output = stderr;
             LOG_PERR("Cannot open output file %s - logging disabled", file);
             loggerConfig.output = NULL;
-            return;
+            goto close_unused;
         }
+        logFile = loggerConfig.output;
+        memcpy(logFileName, file, len + 1);
     } else {
         loggerConfig.output = stderr;
         LOG_ERR("Logging output not set - logging disabled (UMF_LOG = \"%s\")",
                 envVar);
         loggerConfig.output = NULL;
-        return;
+        goto close_unused;
     }
 
     if (utils_parse_var(envVar, "timestamp:yes", NULL)) {
@@ -333,4 +353,9 @@ void utils_log_init(void) {
         "level: %s, flush: %s, pid: %s, timestamp: %s)",
         level_to_str(loggerConfig.level), level_to_str(loggerConfig.flushLevel),
         bool_to_str(loggerConfig.pid), bool_to_str(loggerConfig.timestamp));
+
+close_unused:
+    if (openFile && loggerConfig.output != openFile) {
+        fclose(openFile);
+    }
 }
-- 
2.43.0


From 55b9a3b18543f90102765289ee8d73eb8bdf7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 77/79] fix: ctl: names that only start with a number, and
 numbers out of range, are not indexes

---
 src/ctl/ctl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 62a44a2..206b47f 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -135,10 +135,13 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
          * check is valid in both cases.
          */
         int tmp_errno = errno;
+        errno = 0;
         long index_value = strtol(node_name, &endptr, 0);
+        int out_of_range = errno == ERANGE;
         errno = tmp_errno;
         umf_ctl_index_utlist_t *index_entry = NULL;
-        if (endptr != node_name) { /* a valid index */
+        if (endptr != node_name && *endptr == '\0' &&
+            !out_of_range) { /* a valid index */
             index_entry = umf_ba_global_alloc(sizeof(*index_entry));
             if (index_entry == NULL) {
                 goto error;
-- 
2.43.0


From 01e4e5eac6fa3d94764f9e4ea94b5860aa3c34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:44 +0000
Subject: [PATCH 78/79] fix: CUDA provider: free the parameters when the
 library is not available

---
 src/provider/provider_cuda.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index dd12d91..58d944d 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -269,6 +269,7 @@ umf_result_t umfCUDAMemoryProviderParamsCreate(
     utils_init_once(&cu_is_initialized, init_cu_global_state);
     if (Init_cu_global_state_failed) {
         LOG_FATAL("Loading CUDA symbols failed");
+        umf_ba_global_free(params_data);
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
-- 
2.43.0


From f22ff7693bba0a61ad17375ba44d0f3b30491f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:44 +0000
Subject: [PATCH 79/79] fix: CUDA provider: load the library again after a
 restart of UMF

---
 src/provider/provider_cuda.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index 58d944d..fca38ce 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -13,16 +13,25 @@
 #include <umf/providers/provider_cuda.h>
 
 #include "provider_cuda_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *cu_lib_handle = NULL;
+static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
+static bool Init_cu_global_state_failed = false;
 
 void fini_cu_global_state(void) {
     if (cu_lib_handle) {
         utils_close_library(cu_lib_handle);
         cu_lib_handle = NULL;
     }
+
+    // load the library again when it is needed after the next umfInit()
+    Init_cu_global_state_failed = false;
+    // portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG set_once = UTIL_ONCE_FLAG_INIT;
+    memcpy(&cu_is_initialized, &set_once, sizeof(cu_is_initialized));
 }
 
 #if defined(UMF_NO_CUDA_PROVIDER)
@@ -98,7 +107,6 @@ umf_memory_provider_ops_t *umfCUDAMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 
@@ -150,8 +158,6 @@ typedef struct cu_ops_t {
 typedef CUipcMemHandle cu_ipc_data_t;
 
 static cu_ops_t g_cu_ops;
-static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
-static bool Init_cu_global_state_failed;
 
 // forward decl needed for alloc
 static umf_result_t cu_memory_provider_free(void *provider, void *ptr,
-- 
2.43.0

