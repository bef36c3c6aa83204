From c3c860987c2526f42581b1c04996e2b4d0dbd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 01/83] fix: os provider frees the nodeset array, not its first
 bitmap, when creating nodesets fails

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..4a5e526 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -325,7 +325,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
-- 
2.43.0


From 8a32caf9bb48a174733912431abf3ff484c43897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 02/83] fix: os provider returns umf_result_t codes when
 creating the shared memory file fails

---
 src/provider/provider_os_memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 4a5e526..658a048 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -456,7 +456,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -467,7 +467,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
-- 
2.43.0


From 5f4a0e611e62cb57f931f01b4ab97ed9fc809028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 03/83] fix: os provider creation fails when its partitions
 cannot be initialized

---
 src/provider/provider_os_memory.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 658a048..75787dc 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -660,7 +660,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 3a0525b01bd7026572e1ca6c71e753fc594fff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 04/83] fix: os provider closes its file descriptor and frees
 its partitions on failure and in finalize

---
 src/provider/provider_os_memory.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 75787dc..c0f5be0 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -733,7 +733,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -755,7 +755,12 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
 err_destroy_bitmaps:
+    if (os_provider->partitions) {
+        umf_ba_global_free(os_provider->partitions);
+    }
     free_bitmaps(os_provider);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
@@ -771,6 +776,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 218b5ca390a28cfba070c988f931f5e1e37a68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 05/83] fix: IPC cache entry goes back to the allocator it came
 from when its mutex cannot be created

---
 src/ipc_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..7e50cbc 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -239,7 +239,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
-- 
2.43.0


From b89a2df96a12c233625bcafb64bb79e827689fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 06/83] fix: IPC cache closes an evicted mapping through the
 provider that opened it

---
 src/ipc_cache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index 7e50cbc..de7601d 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -182,6 +182,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
     bool evicted = false;
+    ipc_opened_cache_key_t evicted_key;
     ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
@@ -227,6 +228,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
+            evicted_key = entry->key;
             evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
             evicted_value.mapped_size = entry->value.mapped_size;
             evicted = true;
@@ -266,7 +268,7 @@ exit:
     utils_mutex_unlock(&(cache->global->cache_lock));
 
     if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
+        cache->eviction_cb(&evicted_key, &evicted_value);
     }
 
     return ret;
-- 
2.43.0


From 5166c7874ced16cc2411fed52ba100e57e302d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 07/83] fix: a failed open of an IPC handle drops its reference
 and is never closed

---
 src/provider/provider_tracking.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..e940c58 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -984,23 +984,26 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
                                const ipc_opened_cache_value_t *value) {
     umf_tracking_memory_provider_t *p =
         (umf_tracking_memory_provider_t *)key->local_provider;
+    if (value->mapped_base_ptr == NULL) {
+        // opening the handle failed, so there is nothing to close
+        return;
+    }
+
     // umfMemoryTrackerRemoveIpcSegment should be called before umfMemoryProviderCloseIPCHandle
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
-    }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
-        p->hUpstream, value->mapped_base_ptr, value->mapped_size);
+    umf_result_t ret =
+        umfMemoryTrackerRemoveIpcSegment(p->hTracker, value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
+    }
+    ret = umfMemoryProviderCloseIPCHandle(p->hUpstream, value->mapped_base_ptr,
+                                          value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
                 value->mapped_base_ptr, value->mapped_size);
@@ -1102,6 +1105,9 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        // drop the reference taken by umfIpcOpenedCacheGet()
+        umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From 57c8215b2f78cec909117316156a09f87c4ae104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 08/83] fix: creating a tracking provider releases its caches
 on failure

---
 src/provider/provider_tracking.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index e940c58..126622f 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1175,6 +1175,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create IPC cache of opened handles");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1182,8 +1187,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From c083a322fa784f0aa5e6dc2d5de51bd9f14f81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 09/83] fix: tracking provider initialization frees its data
 when the parameters are invalid

---
 src/provider/provider_tracking.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 126622f..ab82842 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -782,6 +782,7 @@ static umf_result_t trackingInitialize(void *params, void **ret) {
     *provider = *((umf_tracking_memory_provider_t *)params);
     if (provider->hUpstream == NULL || provider->hTracker == NULL ||
         provider->pool == NULL || provider->ipcCache == NULL) {
+        umf_ba_global_free(provider);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 3ed988b145226a30c450d74713df06a936871eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 10/83] fix: base allocator returns NULL when it runs out of
 memory

---
 src/base_alloc/base_alloc_global.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..f054f0f 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -97,7 +97,10 @@ static int size_to_idx(size_t size) {
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
+
+    if (!ptr) {
+        return NULL; // out of memory
+    }
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
-- 
2.43.0


From d4fcd1186dea0a12002c4154e4bed229b2f6624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 11/83] fix: base allocator rejects sizes that do not fit in
 its metadata

---
 src/base_alloc/base_alloc_global.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index f054f0f..d3c0594 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -185,6 +185,12 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         size += alignment;
     }
 
+    // the metadata has room for 32-bit sizes only
+    if (size >= (1ULL << 32)) {
+        LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
+        return NULL;
+    }
+
     int ac_index = size_to_idx(size);
     if (ac_index >= NUM_ALLOCATION_CLASSES) {
         return add_metadata_and_align(ba_os_alloc(size), size, alignment);
-- 
2.43.0


From 5c3e814cc75740a48a2491fd5ee29056f15b0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:46 +0000
Subject: [PATCH 12/83] fix: linear base allocator rejects sizes that overflow
 the pool size

---
 src/base_alloc/base_alloc_linear.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..d00539a 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -137,6 +137,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size - usable_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("pool_size overflow");
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From ca0dd6b425176d5cae2926fde5c3c9c3a838fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 13/83] fix: proxy library rejects aligned and array requests
 whose size overflows

---
 src/proxy_lib/proxy_lib.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..be4de00 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -315,7 +315,13 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (size > SIZE_MAX - alignment) {
+        return NULL; // arithmetic overflow
+    }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
+    if (ptr == NULL) {
+        return NULL;
+    }
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
 
@@ -325,6 +331,9 @@ static inline void *ba_leak_malloc(size_t size) {
 
 static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
+    if (size && nmemb > SIZE_MAX / size) {
+        return NULL; // arithmetic overflow
+    }
     // umf_ba_linear_alloc() returns zeroed memory
     // so ba_leak_aligned_alloc() does too
     return ba_leak_aligned_alloc(0, nmemb * size);
-- 
2.43.0


From 33896ee902efef95ecdac0ce7c15dafb79b9bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 14/83] fix: file provider creation fails when its path does
 not fit

---
 src/provider/provider_file_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..d70fb91 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -214,6 +214,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From 7e87428874be722c8f2e78cd76e736b960c79200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 15/83] fix: devdax provider creation fails when its path does
 not fit

---
 src/provider/provider_devdax_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..969952b 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -204,6 +204,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
-- 
2.43.0


From feb9144b07d5b603143658783321756d3bf5d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 16/83] fix: file provider unmaps memory that it cannot
 register

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d70fb91..f094218 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -399,6 +399,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_UNKNOWN;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From 266e3108eaf94eb399d8fadc8519e670e1f6c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 17/83] fix: file provider keeps the file offset in step with
 the aligned mapping

---
 src/provider/provider_file_memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index f094218..eaab856 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -414,6 +414,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->base_mmap = (void *)aligned_ptr;
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
+    // the part cut out to align the pointer is skipped also in the file
+    file_provider->offset_fd =
+        aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From a82304afe7b112f7af0bf0f1d31805b78576ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 18/83] fix: file provider never places an allocation behind
 its mapping

---
 src/provider/provider_file_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index eaab856..d0377cc 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -460,7 +460,8 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From c8dc32bd591e9a893a2337bd0b67034e870e875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 19/83] fix: querying the native error before any failure does
 not index outside the message table

---
 src/provider/provider_devdax_memory.c | 3 ++-
 src/provider/provider_file_memory.c   | 3 ++-
 src/provider/provider_fixed_memory.c  | 3 ++-
 src/provider/provider_os_memory.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 969952b..8f8bed1 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d0377cc..a7d7289 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index c0f5be0..a9744d0 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
-- 
2.43.0


From 2e08670a9ebf529c83624e691d7da26517441672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 20/83] fix: control queries keep their index entries and
 release them

---
 src/ctl/ctl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..e0299b5 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -121,7 +121,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -161,7 +161,7 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            LL_PREPEND(*indexes, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -401,12 +401,12 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From 15c60c1e481e6c0f4b8b01a879a21097cd4bcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 21/83] fix: control queries that continue below a leaf are
 rejected

---
 src/ctl/ctl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index e0299b5..e328cb6 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -145,6 +145,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) {
+            // the name goes on below a leaf
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
-- 
2.43.0


From eba3a2a286159fdd34cb78cc46cd566a6b3fb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 22/83] fix: control queries of a pool report the result of its
 handler

---
 src/memory_pool.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..a88260f 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,7 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    return hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
-- 
2.43.0


From d536196686e976637fca106c306d1fef2a460cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 23/83] fix: control queries of a provider report the result of
 its handler

---
 src/memory_provider.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..2076d3a 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,8 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    return hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0,
+                              extra_name, arg, queryType);
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 214c53919b5b574c5f2bc60fad1a1db5cd76209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 24/83] fix: os provider control queries return umf_result_t
 codes

---
 src/provider/provider_os_memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index a9744d0..d8377af 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1547,7 +1547,9 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
     return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
-                     name, query_type, arg);
+                     name, query_type, arg)
+               ? UMF_RESULT_ERROR_INVALID_ARGUMENT
+               : UMF_RESULT_SUCCESS;
 }
 
 static umf_memory_provider_ops_t UMF_OS_MEMORY_PROVIDER_OPS = {
-- 
2.43.0


From a03bab63d9795ccdd3957ac53e131113212f6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 25/83] fix: scalable pool control queries return umf_result_t
 codes

---
 src/pool/pool_scalable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..bb0101d 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -440,7 +440,9 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
     return ctl_query(pool_scallable_ctl_root, pool_provider,
-                     CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
+                     CTL_QUERY_PROGRAMMATIC, name, query_type, arg)
+               ? UMF_RESULT_ERROR_INVALID_ARGUMENT
+               : UMF_RESULT_SUCCESS;
 }
 
 static umf_memory_pool_ops_t UMF_SCALABLE_POOL_OPS = {
-- 
2.43.0


From 40f0be2c8f5244fd13df48520fba12935115f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 26/83] fix: level zero provider releases its data when its
 initialization fails

---
 src/provider/provider_level_zero.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..af81e84 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -629,7 +629,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
-- 
2.43.0


From 3aafe9a87d13cfcb8e87102be294b244cdad083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 27/83] fix: level zero allocation is freed when it cannot be
 made resident

---
 src/provider/provider_level_zero.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index af81e84..f869c81 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -481,6 +481,8 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            (void)g_ze_ops.zeMemFree(ze_provider->context, *resultPtr);
+            *resultPtr = NULL;
             return ze2umf_result(ze_result);
         }
     }
-- 
2.43.0


From 13e0b452e6d8dd8823cf5d098012189cf49cea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 28/83] fix: level zero free policies need a driver that offers
 them

---
 src/provider/provider_level_zero.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index f869c81..03bee8a 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -578,6 +578,13 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    // zeMemFreeExt is an extension that old loaders do not have
+    if (umfFreePolicyToZePolicy(ze_params->freePolicy) != 0 &&
+        g_ze_ops.zeMemFreeExt == NULL) {
+        LOG_ERR("the free policy is not supported by the Level Zero loader");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
-- 
2.43.0


From fb117d065af6f1a9cc76a79027ec336ac2266c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 29/83] fix: level zero provider always sets the native error
 message

---
 src/provider/provider_level_zero.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 03bee8a..56bbe09 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -658,6 +658,9 @@ static void ze_memory_provider_get_last_native_error(void *provider,
     }
 
     *pError = TLS_last_native_error;
+    *ppMessage = TLS_last_native_error == ZE_RESULT_SUCCESS
+                     ? "success"
+                     : "Level Zero driver error";
 }
 
 static umf_result_t ze_memory_provider_get_min_page_size(void *provider,
-- 
2.43.0


From ffe5b97928366a81ef7b1d60d9e893440864bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 30/83] fix: unknown level zero free policies are rejected

---
 src/provider/provider_level_zero.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 56bbe09..556e161 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -388,6 +388,16 @@ umf_result_t umfLevelZeroMemoryProviderParamsSetFreePolicy(
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    switch (policy) {
+    case UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFAULT:
+    case UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE:
+    case UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFER_FREE:
+        break;
+    default:
+        LOG_ERR("unknown Level Zero free policy");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     hParams->freePolicy = policy;
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 5aac0889439e856f540d8ef4b5e3b8d04ec78590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 31/83] fix: level zero params keep a copy of the resident
 devices

---
 src/provider/provider_level_zero.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 556e161..e606a02 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -300,7 +300,10 @@ umf_result_t umfLevelZeroMemoryProviderParamsCreate(
 
 umf_result_t umfLevelZeroMemoryProviderParamsDestroy(
     umf_level_zero_memory_provider_params_handle_t hParams) {
-    umf_ba_global_free(hParams);
+    if (hParams != NULL) {
+        umf_ba_global_free(hParams->resident_device_handles);
+        umf_ba_global_free(hParams);
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -374,7 +377,18 @@ umf_result_t umfLevelZeroMemoryProviderParamsSetResidentDevices(
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hParams->resident_device_handles = hDevices;
+    ze_device_handle_t *devices = NULL;
+    if (deviceCount) {
+        devices = umf_ba_global_alloc(sizeof(*devices) * deviceCount);
+        if (!devices) {
+            LOG_ERR("Cannot allocate memory for resident devices");
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
+        memcpy(devices, hDevices, sizeof(*devices) * deviceCount);
+    }
+
+    umf_ba_global_free(hParams->resident_device_handles);
+    hParams->resident_device_handles = devices;
     hParams->resident_device_count = deviceCount;
 
     return UMF_RESULT_SUCCESS;
-- 
2.43.0


From ef0c8f7691d6a45e65a3e6b0803ba1db77a33b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 32/83] fix: creating a NUMA memspace destroys its targets
 before freeing their array

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From 1b279669c05a418eabd640ef9bce176be2a0291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 33/83] fix: destroying the topology forgets it

---
 src/topology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology.c b/src/topology.c
index eab7992..4930b11 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,6 +18,7 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
+        topology = NULL;
 
         // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
         static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-- 
2.43.0


From 0d4b587d5d0f44aea0e9d566727315fd33c1d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 34/83] fix: lowest latency memspace can be created again after
 it was destroyed

---
 src/memspaces/memspace_lowest_latency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..4d34eac 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -91,6 +91,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
     if (UMF_MEMSPACE_LOWEST_LATENCY) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
+
+        // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+        memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+               sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
     }
 }
 
-- 
2.43.0


From 0396d7a17da400f09a85765db6b3b0b300cab568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 35/83] fix: scalable pool forgets a TBB library that lacks a
 required symbol, msize included

---
 src/pool/pool_scalable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index bb0101d..b1f79a4 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -151,11 +151,12 @@ static void init_tbb_callbacks_once(void) {
     if (!tbb_callbacks.pool_malloc || !tbb_callbacks.pool_realloc ||
         !tbb_callbacks.pool_aligned_malloc || !tbb_callbacks.pool_free ||
         !tbb_callbacks.pool_create_v1 || !tbb_callbacks.pool_destroy ||
-        !tbb_callbacks.pool_identify) {
+        !tbb_callbacks.pool_identify || !tbb_callbacks.pool_msize) {
         LOG_FATAL("Could not find all TBB symbols in %s", lib_name);
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
         }
+        tbb_callbacks.lib_handle = NULL;
         tbb_init_result = -1;
     }
 }
-- 
2.43.0


From d43e9f3e0d027bef8d07c994a642c68178f40c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 36/83] fix: scalable pool loads TBB again after the library
 was torn down

---
 src/pool/pool_scalable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index b1f79a4..2ca0c68 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -170,6 +170,9 @@ void fini_tbb_global_state(void) {
     if (tbb_callbacks.lib_handle) {
         if (!utils_close_library(tbb_callbacks.lib_handle)) {
             tbb_callbacks.lib_handle = NULL;
+            // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+            static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+            memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
             LOG_DEBUG("TBB library closed");
         } else {
             LOG_ERR("TBB library cannot be unloaded");
-- 
2.43.0


From 6471143c4161ff3640273108f7679491b9511922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 37/83] fix: level zero provider loads its driver again after
 the library was torn down

---
 src/provider/provider_level_zero.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index e606a02..38d5cff 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -15,15 +15,22 @@
 #include <umf/providers/provider_level_zero.h>
 
 #include "provider_level_zero_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *ze_lib_handle = NULL;
+static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
 
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
+
+        // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+        memcpy(&ze_is_initialized, &is_initialized,
+               sizeof(ze_is_initialized));
     }
 }
 
@@ -115,7 +122,6 @@ umf_memory_provider_ops_t *umfLevelZeroMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 #include "ze_api.h"
@@ -189,7 +195,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
 static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
-- 
2.43.0


From 96e71152aa8b7486314cc76af292a5cfce517b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 38/83] fix: CUDA provider loads its driver again after the
 library was torn down

---
 src/provider/provider_cuda.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index dd12d91..f52b142 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -13,15 +13,22 @@
 #include <umf/providers/provider_cuda.h>
 
 #include "provider_cuda_internal.h"
+#include "utils_concurrency.h"
 #include "utils_load_library.h"
 #include "utils_log.h"
 
 static void *cu_lib_handle = NULL;
+static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
 
 void fini_cu_global_state(void) {
     if (cu_lib_handle) {
         utils_close_library(cu_lib_handle);
         cu_lib_handle = NULL;
+
+        // portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
+        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+        memcpy(&cu_is_initialized, &is_initialized,
+               sizeof(cu_is_initialized));
     }
 }
 
@@ -98,7 +105,6 @@ umf_memory_provider_ops_t *umfCUDAMemoryProviderOps(void) {
 #include "libumf.h"
 #include "utils_assert.h"
 #include "utils_common.h"
-#include "utils_concurrency.h"
 #include "utils_log.h"
 #include "utils_sanitizers.h"
 
@@ -150,7 +156,6 @@ typedef struct cu_ops_t {
 typedef CUipcMemHandle cu_ipc_data_t;
 
 static cu_ops_t g_cu_ops;
-static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
 static bool Init_cu_global_state_failed;
 
 // forward decl needed for alloc
-- 
2.43.0


From 87fb39edb4a43e14530f04881b8e471a9d8a7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 39/83] fix: global CTL module is registered once, not on every
 initialization

---
 src/libumf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..9ee51e5 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -18,6 +18,7 @@
 #include "provider_level_zero_internal.h"
 #include "provider_tracking.h"
 #include "utils_common.h"
+#include "utils_concurrency.h"
 #include "utils_log.h"
 #if !defined(UMF_NO_HWLOC)
 #include "topology.h"
@@ -30,6 +31,8 @@ static uint64_t umfRefCount = 0;
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
+static UTIL_ONCE_FLAG global_ctl_initialized = UTIL_ONCE_FLAG_INIT;
+
 void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
 
 int umfInit(void) {
@@ -50,7 +53,8 @@ int umfInit(void) {
         }
 
         LOG_DEBUG("UMF IPC cache initialized");
-        initialize_global_ctl();
+        // the global CTL tree outlives the teardown of the library
+        utils_init_once(&global_ctl_initialized, initialize_global_ctl);
     }
 
     if (TRACKER) {
-- 
2.43.0


From a473ae3387ecdd6be98f8671533eed3e99a5a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 40/83] fix: a failed initialization of the library leaves
 nothing behind

---
 src/libumf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libumf.c b/src/libumf.c
index 9ee51e5..90a06c3 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -41,6 +41,7 @@ int umfInit(void) {
         TRACKER = umfMemoryTrackerCreate();
         if (!TRACKER) {
             LOG_ERR("Failed to create memory tracker");
+            utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
@@ -49,6 +50,10 @@ int umfInit(void) {
         umf_result_t umf_result = umfIpcCacheGlobalInit();
         if (umf_result != UMF_RESULT_SUCCESS) {
             LOG_ERR("Failed to initialize IPC cache");
+            umf_memory_tracker_handle_t t = TRACKER;
+            TRACKER = NULL;
+            umfMemoryTrackerDestroy(t);
+            utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
-- 
2.43.0


From e3d7827507233a2266eb9b4b0401686d10744349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 41/83] fix: base allocator is not marked destroyed once it was
 created again

---
 src/base_alloc/base_alloc_global.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index d3c0594..e31559c 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -58,6 +58,8 @@ void umf_ba_destroy_global(void) {
 bool umf_ba_global_is_destroyed(void) { return ba_is_destroyed; }
 
 static void umf_ba_create_global(void) {
+    ba_is_destroyed = false;
+
     for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) {
         // allocation classes need to be powers of 2
         assert(0 == (BASE_ALLOC.ac_sizes[i] & (BASE_ALLOC.ac_sizes[i] - 1)));
-- 
2.43.0


From 4522dd228e93b81b15b5e470acbcb5621b9f65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:34 +0000
Subject: [PATCH 42/83] fix: highest capacity memspace destroys its clone when
 sorting fails

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..c6cf1c1 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From 1aa6439b92b3f5fb032a2275c478b36479d0220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 43/83] fix: proxy library returns NULL when its leak allocator
 cannot be created

---
 src/proxy_lib/proxy_lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index be4de00..cf28807 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -315,6 +315,9 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (Base_alloc_leak == NULL) {
+        return NULL; // out of memory
+    }
     if (size > SIZE_MAX - alignment) {
         return NULL; // arithmetic overflow
     }
@@ -341,6 +344,9 @@ static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
 
 static inline void *ba_leak_realloc(void *ptr, size_t size, size_t max_size) {
     ba_leak_init_once();
+    if (Base_alloc_leak == NULL) {
+        return NULL; // out of memory
+    }
     return ba_generic_realloc(Base_alloc_leak, ptr, size, max_size);
 }
 
-- 
2.43.0


From 855ed20d594d67539265309313c07c29531d7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 44/83] fix: os_alloc fails when the file offset of an
 allocation cannot be recorded

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index d8377af..b849ab2 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1184,6 +1184,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
             LOG_ERR("os_alloc(): inserting a value to the file descriptor "
                     "offset map failed (addr=%p, offset=%zu)",
                     addr, fd_offset);
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
     }
 
-- 
2.43.0


From bab1cf3ee132c5b14c8b10a5115a2540000fc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 45/83] fix: os_alloc decides about a failed binding by the
 errno of the binding, not of the logging

---
 src/provider/provider_os_memory.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index b849ab2..68d1c39 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1159,13 +1159,14 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                                          os_provider->numa_flags);
 
             if (ret) {
+                int bind_errno = errno;
                 os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED,
-                                           errno);
+                                           bind_errno);
                 LOG_PERR("binding memory to NUMA node failed");
                 // TODO: (errno == 0) when hwloc_set_area_membind() fails on Windows,
                 // ignore this temporarily
-                if (errno != ENOSYS &&
-                    errno != 0) { // ENOSYS - Function not implemented
+                if (bind_errno != ENOSYS &&
+                    bind_errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
                     goto err_unmap;
-- 
2.43.0


From 47556f881cdc8ed58b228e469b6351959c802d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 46/83] fix: disjoint pool detects a bucket lock that cannot be
 initialized

---
 src/pool/pool_disjoint.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..5d036dd 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -253,7 +253,11 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
     bucket->pool = pool;
     bucket->shared_limits = shared_limits;
 
-    utils_mutex_init(&bucket->bucket_lock);
+    if (utils_mutex_init(&bucket->bucket_lock) == NULL) {
+        LOG_ERR("initialization of the bucket lock failed!");
+        umf_ba_global_free(bucket);
+        return NULL;
+    }
     return bucket;
 }
 
-- 
2.43.0


From 19e8cf17cbe6c69b4f2111f178ed49f5f4c8abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 47/83] fix: disjoint pool frees its array of buckets

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 5d036dd..5d1598a 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -924,6 +924,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From 46f42280323290d3fcf72254d93a3b4e6f54a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 48/83] fix: disjoint pool rejects aligned sizes that overflow

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 5d1598a..76f2695 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -742,6 +742,11 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
         aligned_size = size + alignment - 1;
     }
 
+    if (aligned_size < size) { // arithmetic overflow
+        TLS_last_allocation_error = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        return NULL;
+    }
+
     // Check if requested allocation size is within pooling limit.
     // If not, just request aligned pointer from the system.
     if (aligned_size > disjoint_pool->params.max_poolable_size) {
-- 
2.43.0


From 00c4b863c0c350780c4764ab363b97339fafd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 49/83] fix: disjoint pool does not pool sizes it has no bucket
 for

---
 src/pool/pool_disjoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 76f2695..7dac944 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -602,6 +602,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
 
+    // there are no buckets for sizes above CutOff
+    disjoint_pool->params.max_poolable_size =
+        utils_min(disjoint_pool->params.max_poolable_size, CutOff);
+
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
         goto err_free_disjoint_pool;
-- 
2.43.0


From 5bf3fd4091d903bbbe7b83958ce7f1d861c1cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 50/83] fix: scalable pool calloc rejects sizes that overflow

---
 src/pool/pool_scalable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 2ca0c68..b99e114 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -340,6 +340,10 @@ static void *tbb_malloc(void *pool, size_t size) {
 
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
+    if (size != 0 && num > SIZE_MAX / size) { // arithmetic overflow
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
     size_t csize = num * size;
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
-- 
2.43.0


From c0c62fbf1ab06a13bdd62214f066fdf06817d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 51/83] fix: os provider rejects lengths that overflow with
 their alignment or the file size

---
 src/provider/provider_os_memory.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 68d1c39..fab46f4 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -851,6 +851,11 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (extended_length > SIZE_MAX - alignment) {
+            LOG_ERR("length %zu is too big for alignment %zu", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
@@ -862,7 +867,8 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (extended_length > max_fd_size ||
+            *fd_size > max_fd_size - extended_length) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
-- 
2.43.0


From ae36bda2c25b96f6e62e84104a20e2e4a49f0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 52/83] fix: os provider records the file offset of the aligned
 address

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index fab46f4..df2aca1 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -900,6 +900,8 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         size_t head_len = aligned_addr - addr;
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
+            // the file offset has to match the returned address
+            *fd_offset += head_len;
         }
 
         // tail address has to page-aligned
-- 
2.43.0


From 29d1e95483b104ad93333360bc95d64d7edd29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 53/83] fix: os_alloc reports lack of host memory when the
 binding bitmap cannot be allocated

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index df2aca1..9f0129c 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1156,7 +1156,8 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
-            goto err_unmap;
+            (void)utils_munmap(addr, size);
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
         do {
-- 
2.43.0


From 6367a4b3ba84dbc947231254b2691002674f1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 54/83] fix: os_alloc frees the binding bitmap when binding
 fails

---
 src/provider/provider_os_memory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 9f0129c..46e80aa 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1178,6 +1178,10 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     bind_errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
+                        os_provider->nodeset_len != 1) {
+                        hwloc_bitmap_free(membind.bitmap);
+                    }
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From f46d9f2ee6416cf0b834817f533a260c6ef35fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 55/83] fix: a failed initialization inside the proxy library
 leaves no tracker behind

---
 src/libumf.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/libumf.c b/src/libumf.c
index 90a06c3..4312cf1 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -38,26 +38,25 @@ void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
 int umfInit(void) {
     if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
         utils_log_init();
-        TRACKER = umfMemoryTrackerCreate();
-        if (!TRACKER) {
-            LOG_ERR("Failed to create memory tracker");
+        umf_result_t umf_result = umfIpcCacheGlobalInit();
+        if (umf_result != UMF_RESULT_SUCCESS) {
+            LOG_ERR("Failed to initialize IPC cache");
             utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
-        LOG_DEBUG("UMF tracker created");
+        LOG_DEBUG("UMF IPC cache initialized");
 
-        umf_result_t umf_result = umfIpcCacheGlobalInit();
-        if (umf_result != UMF_RESULT_SUCCESS) {
-            LOG_ERR("Failed to initialize IPC cache");
-            umf_memory_tracker_handle_t t = TRACKER;
-            TRACKER = NULL;
-            umfMemoryTrackerDestroy(t);
+        // created last: the proxy library never destroys a tracker
+        TRACKER = umfMemoryTrackerCreate();
+        if (!TRACKER) {
+            LOG_ERR("Failed to create memory tracker");
+            umfIpcCacheGlobalTearDown();
             utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
-        LOG_DEBUG("UMF IPC cache initialized");
+        LOG_DEBUG("UMF tracker created");
         // the global CTL tree outlives the teardown of the library
         utils_init_once(&global_ctl_initialized, initialize_global_ctl);
     }
-- 
2.43.0


From b9bd057a317747eb1c4c3d39d992769868ca1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:10 +0000
Subject: [PATCH 56/83] fix: umfDisjointPoolParamsSetName rejects a NULL name

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 7dac944..4b54553 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1104,6 +1104,11 @@ umfDisjointPoolParamsSetName(umf_disjoint_pool_params_handle_t hParams,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (!name) {
+        LOG_ERR("disjoint pool name is NULL");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     strncpy(hParams->name, name, sizeof(hParams->name) - 1);
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From de396f8a9f77c5fa6cca93e00d6161f8753ec8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 57/83] fix: umfMemtargetClone does not hand out a freed target
 when it fails

---
 src/memtarget.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memtarget.c b/src/memtarget.c
index 8eb6e4e..a5150fd 100644
--- a/src/memtarget.c
+++ b/src/memtarget.c
@@ -72,6 +72,7 @@ umf_result_t umfMemtargetClone(umf_const_memtarget_handle_t memoryTarget,
     umf_result_t ret = memoryTarget->ops->clone(memoryTarget->priv, &outPriv);
     if (ret != UMF_RESULT_SUCCESS) {
         umf_ba_global_free(*outHandle);
+        *outHandle = NULL;
         return ret;
     }
 
-- 
2.43.0


From 5bf4948cf9ecf0b46b8c93546d29f3d6e6100180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 58/83] fix: coarse_add_memory_fixed reads the usage counters
 under the lock

---
 src/coarse/coarse.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..7299e7d 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1005,6 +1005,10 @@ umf_result_t coarse_add_memory_fixed(coarse_t *coarse, void *addr,
     assert(debug_check(coarse));
 
     umf_result = coarse_add_used_block(coarse, addr, size);
+    if (umf_result == UMF_RESULT_SUCCESS) {
+        LOG_DEBUG("coarse_ALLOC (add_memory_block) %zu used %zu alloc %zu",
+                  size, coarse->used_size, coarse->alloc_size);
+    }
 
     assert(debug_check(coarse));
     utils_mutex_unlock(&coarse->lock);
@@ -1013,15 +1017,7 @@ umf_result_t coarse_add_memory_fixed(coarse_t *coarse, void *addr,
         return umf_result;
     }
 
-    umf_result = coarse_free(coarse, addr, size);
-    if (umf_result != UMF_RESULT_SUCCESS) {
-        return umf_result;
-    }
-
-    LOG_DEBUG("coarse_ALLOC (add_memory_block) %zu used %zu alloc %zu", size,
-              coarse->used_size, coarse->alloc_size);
-
-    return UMF_RESULT_SUCCESS;
+    return coarse_free(coarse, addr, size);
 }
 
 umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
-- 
2.43.0


From 28e18bcc30e84d022d61c69be0f2187d00f353e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 59/83] fix: concurrent nested allocations do not lose updates
 of the tracker's child counter

---
 src/provider/provider_tracking.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index ab82842..b2449e8 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -151,7 +151,7 @@ umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
                   (void *)hTracker, level, (void *)pool, ptr, size);
 
         if (parent_value) {
-            parent_value->n_children++;
+            utils_atomic_increment_u64((uint64_t *)&parent_value->n_children);
             LOG_DEBUG(
                 "child #%zu added to memory region: tracker=%p, level=%i, "
                 "pool=%p, ptr=%p, size=%zu",
@@ -268,7 +268,7 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
             "pool=%p, ptr=%p, size=%zu",
             parent_value->n_children, (void *)hTracker, level - 1,
             (void *)parent_value->pool, (void *)parent_key, parent_value->size);
-        parent_value->n_children--;
+        utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
     }
 
     umf_ba_free(hTracker->alloc_info_allocator, value);
-- 
2.43.0


From 62f1f610624bd3687e449f37568f988c48347f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 60/83] fix: the disjoint pool's total size statistic is
 updated atomically

---
 src/pool/pool_disjoint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 4b54553..1c1cc7f 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -417,8 +417,9 @@ static void bucket_update_stats(bucket_t *bucket, int in_use, int in_pool) {
 
     // Increment or decrement current pool sizes based on whether
     // slab was added to or removed from pool.
-    bucket->pool->params.cur_pool_size +=
-        in_pool * bucket_slab_alloc_size(bucket);
+    // It is shared by all buckets, each of which has its own lock.
+    utils_fetch_and_add_u64((uint64_t *)&bucket->pool->params.cur_pool_size,
+                            in_pool * bucket_slab_alloc_size(bucket));
 }
 
 static bool bucket_can_pool(bucket_t *bucket) {
-- 
2.43.0


From 715a52e5435c069af6d19ba6a47f4c0deab07240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 61/83] fix: umf_ba_linear_create rejects sizes that overflow
 with its metadata

---
 src/base_alloc/base_alloc_linear.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index d00539a..a3e4383 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -82,8 +82,14 @@ static void ba_debug_checks(umf_ba_linear_pool_t *pool) {
 #endif /* NDEBUG */
 
 umf_ba_linear_pool_t *umf_ba_linear_create(size_t pool_size) {
-    pool_size += sizeof(umf_ba_next_linear_pool_t *) +
-                 sizeof(umf_ba_main_linear_pool_meta_t);
+    size_t metadata_size = sizeof(umf_ba_next_linear_pool_t *) +
+                           sizeof(umf_ba_main_linear_pool_meta_t);
+    if (pool_size > SIZE_MAX - metadata_size) {
+        LOG_ERR("pool_size overflow");
+        return NULL;
+    }
+
+    pool_size += metadata_size;
     if (pool_size < MINIMUM_LINEAR_POOL_SIZE) {
         pool_size = MINIMUM_LINEAR_POOL_SIZE;
     }
-- 
2.43.0


From f094884e3185026bef4c4fd3249f783a2a1b9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 62/83] fix: umf_ba_create rejects chunk sizes whose minimal
 pool overflows

---
 src/base_alloc/base_alloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base_alloc/base_alloc.c b/src/base_alloc/base_alloc.c
index 00e5807..3fb7e75 100644
--- a/src/base_alloc/base_alloc.c
+++ b/src/base_alloc/base_alloc.c
@@ -141,8 +141,12 @@ umf_ba_pool_t *umf_ba_create(size_t size) {
     size_t mutex_size = ALIGN_UP(utils_mutex_get_size(), MEMORY_ALIGNMENT);
 
     size_t metadata_size = sizeof(struct umf_ba_main_pool_meta_t);
-    size_t pool_size = sizeof(void *) + metadata_size + mutex_size +
-                       (MINIMUM_CHUNK_COUNT * chunk_size);
+    size_t pool_size = sizeof(void *) + metadata_size + mutex_size;
+    if (chunk_size > (SIZE_MAX - pool_size) / MINIMUM_CHUNK_COUNT) {
+        return NULL;
+    }
+
+    pool_size += MINIMUM_CHUNK_COUNT * chunk_size;
     if (pool_size < MINIMUM_POOL_SIZE) {
         pool_size = MINIMUM_POOL_SIZE;
     }
-- 
2.43.0


From 8392d731f7897aa2328a92a4c117175a8e6086b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 63/83] fix: file provider: report the errno of the failed IPC
 mapping

---
 src/provider/provider_file_memory.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index a7d7289..8dd75ec 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -806,9 +806,12 @@ static umf_result_t file_open_ipc_handle(void *provider, void *providerIpcData,
     char *addr =
         utils_mmap_file(NULL, size_aligned, file_ipc_data->protection,
                         file_ipc_data->visibility, fd, offset_aligned, NULL);
+    int mmap_errno = errno;
     (void)utils_close_fd(fd);
     if (addr == NULL) {
-        file_store_last_native_error(UMF_FILE_RESULT_ERROR_ALLOC_FAILED, errno);
+        file_store_last_native_error(UMF_FILE_RESULT_ERROR_ALLOC_FAILED,
+                                     mmap_errno);
+        errno = mmap_errno;
         LOG_PERR("file mapping failed (path: %s, size: %zu, protection: %u, "
                  "visibility: %u, fd: %i, offset: %zu)",
                  file_ipc_data->path, size_aligned, file_ipc_data->protection,
-- 
2.43.0


From 7923d42d8613b9552ba60646bd17b44f570d43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 64/83] fix: devdax provider: report the errno of the failed
 IPC mapping

---
 src/provider/provider_devdax_memory.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8f8bed1..3bbc103 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -473,15 +473,16 @@ static umf_result_t devdax_open_ipc_handle(void *provider,
     char *addr =
         utils_mmap_file(NULL, length_aligned, devdax_ipc_data->protection,
                         0 /* flags */, fd, offset_aligned, &is_dax);
+    int mmap_errno = errno;
     (void)utils_close_fd(fd);
     if (addr == NULL) {
+        devdax_store_last_native_error(UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED,
+                                       mmap_errno);
+        errno = mmap_errno;
         LOG_PERR("devdax mapping failed (path: %s, size: %zu, protection: %i, "
                  "fd: %i, offset: %zu)",
                  devdax_ipc_data->path, length_aligned,
                  devdax_ipc_data->protection, fd, offset_aligned);
-
-        devdax_store_last_native_error(UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED,
-                                       errno);
         return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
     }
 
-- 
2.43.0


From c2e97c01431cf674f5861d8d3230af315eb69960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 65/83] fix: record the last failed provider for the IPC
 operations too

---
 src/memory_provider.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index 2076d3a..0e58bd6 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -357,8 +357,10 @@ umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t hProvider,
                                   size_t *size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((size != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle_size(hProvider->provider_priv,
-                                                  size);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle_size(
+        hProvider->provider_priv, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -368,8 +370,10 @@ umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.get_ipc_handle(hProvider->provider_priv, ptr,
-                                             size, providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.get_ipc_handle(
+        hProvider->provider_priv, ptr, size, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -377,8 +381,10 @@ umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t hProvider,
                               void *providerIpcData) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.put_ipc_handle(hProvider->provider_priv,
-                                             providerIpcData);
+    umf_result_t res = hProvider->ops.ipc.put_ipc_handle(
+        hProvider->provider_priv, providerIpcData);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -387,8 +393,10 @@ umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t hProvider,
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((providerIpcData != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.open_ipc_handle(hProvider->provider_priv,
-                                              providerIpcData, ptr);
+    umf_result_t res = hProvider->ops.ipc.open_ipc_handle(
+        hProvider->provider_priv, providerIpcData, ptr);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
 
 umf_result_t
@@ -396,6 +404,8 @@ umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t hProvider,
                                 void *ptr, size_t size) {
     UMF_CHECK((hProvider != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
     UMF_CHECK((ptr != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
-    return hProvider->ops.ipc.close_ipc_handle(hProvider->provider_priv, ptr,
-                                               size);
+    umf_result_t res = hProvider->ops.ipc.close_ipc_handle(
+        hProvider->provider_priv, ptr, size);
+    checkErrorAndSetLastProvider(res, hProvider);
+    return res;
 }
-- 
2.43.0


From bd284840f5283d296bc4aa281b9fe4ce5c0c8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 66/83] fix: reject pool ops tables that lack mandatory
 operations

---
 src/memory_pool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index a88260f..e24f32d 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -15,6 +15,7 @@
 #include <umf/memory_pool_ops.h>
 
 #include <assert.h>
+#include <stdbool.h>
 #include <stdlib.h>
 
 #include "base_alloc_global.h"
@@ -47,12 +48,19 @@ static umf_result_t umfDefaultCtlPoolHandle(void *hPool, int operationType,
     return UMF_RESULT_ERROR_NOT_SUPPORTED;
 }
 
+static bool validateOpsMandatory(const umf_memory_pool_ops_t *ops) {
+    // Mandatory ops should be non-NULL
+    return ops->initialize && ops->finalize && ops->malloc && ops->calloc &&
+           ops->realloc && ops->aligned_malloc && ops->malloc_usable_size &&
+           ops->free && ops->get_last_allocation_error;
+}
+
 static umf_result_t umfPoolCreateInternal(const umf_memory_pool_ops_t *ops,
                                           umf_memory_provider_handle_t provider,
                                           void *params,
                                           umf_pool_create_flags_t flags,
                                           umf_memory_pool_handle_t *hPool) {
-    if (!ops || !provider || !hPool) {
+    if (!ops || !provider || !hPool || !validateOpsMandatory(ops)) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From cb1369bc14e3bf35ba08e751b57db0c26f622e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:20 +0000
Subject: [PATCH 67/83] fix: export umfFixedMemoryProviderParamsSetMemory

---
 src/libumf.def | 1 +
 src/libumf.map | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libumf.def b/src/libumf.def
index 34ecee8..0c21b20 100644
--- a/src/libumf.def
+++ b/src/libumf.def
@@ -134,6 +134,7 @@ EXPORTS
     umfFixedMemoryProviderOps
     umfFixedMemoryProviderParamsCreate
     umfFixedMemoryProviderParamsDestroy
+    umfFixedMemoryProviderParamsSetMemory
     umfLevelZeroMemoryProviderParamsSetFreePolicy
     umfLevelZeroMemoryProviderParamsSetDeviceOrdinal
 ; Added in UMF_0.12
diff --git a/src/libumf.map b/src/libumf.map
index f9ec9b6..0007b5c 100644
--- a/src/libumf.map
+++ b/src/libumf.map
@@ -132,6 +132,7 @@ UMF_0.11 {
         umfFixedMemoryProviderOps;
         umfFixedMemoryProviderParamsCreate;
         umfFixedMemoryProviderParamsDestroy;
+        umfFixedMemoryProviderParamsSetMemory;
         umfLevelZeroMemoryProviderParamsSetFreePolicy;
         umfLevelZeroMemoryProviderParamsSetDeviceOrdinal;
 } UMF_0.10;
-- 
2.43.0


From 82d50830e009e526250d527e90d6ee036e76ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 68/83] fix: utils_mmap_file keeps the errno of the failed mmap
 for its callers

---
 src/utils/utils_linux_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/utils_linux_common.c b/src/utils/utils_linux_common.c
index cd0fefd..21b6046 100644
--- a/src/utils/utils_linux_common.c
+++ b/src/utils/utils_linux_common.c
@@ -58,9 +58,11 @@ void *utils_mmap_file(void *hint_addr, size_t length, int prot, int flags,
     if (flags & MAP_PRIVATE) {
         addr = utils_mmap(hint_addr, length, prot, flags, fd, fd_offset);
         if (addr == NULL) {
+            int mmap_errno = errno;
             LOG_PERR("mapping file with the MAP_PRIVATE flag failed (fd=%i, "
                      "offset=%zu, length=%zu, flags=%i)",
                      fd, fd_offset, length, flags);
+            errno = mmap_errno;
             return NULL;
         }
 
@@ -97,14 +99,18 @@ void *utils_mmap_file(void *hint_addr, size_t length, int prot, int flags,
             return addr;
         }
 
+        int mmap_errno = errno;
         LOG_PERR("mapping file with the MAP_SHARED flag failed (fd=%i, "
                  "offset=%zu, length=%zu, flags=%i)",
                  fd, fd_offset, length, shared_flags);
+        errno = mmap_errno;
     } else {
+        int mmap_errno = errno;
         LOG_PERR(
             "mapping file with the MAP_SYNC flag failed (fd=%i, offset=%zu, "
             "length=%zu, flags=%i)",
             fd, fd_offset, length, sync_flags);
+        errno = mmap_errno;
     }
 
     return NULL;
-- 
2.43.0


From 46757ae948766bb1dd2d1eb0d0c56eb8a25e0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:24 +0000
Subject: [PATCH 69/83] fix: merging nested allocations keeps the child counter
 of their parent right

---
 src/provider/provider_tracking.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index b2449e8..691da4c 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -619,6 +619,9 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     mergedValue->size = totalSize;
     mergedValue->n_children = 0;
 
+    // the parent of the merged regions (if they are nested)
+    tracker_alloc_info_t *parent_value = NULL;
+
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
@@ -637,7 +640,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        provider->hTracker, highPtr, &highLevel, NULL, &parent_value,
         0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
@@ -690,6 +693,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
+    // two children of the parent became one
+    if (parent_value) {
+        utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
+    }
+
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG("merged memory regions (level=%i): lowPtr=%p (child=%zu), "
-- 
2.43.0


From 9a73e0c4382700b3f54be0c1237bc2f8d1e4567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:34 +0000
Subject: [PATCH 70/83] fix: undo the upstream split when the second half
 cannot be tracked

---
 src/provider/provider_tracking.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 691da4c..88b6366 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -574,8 +574,14 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // this cannot fail since we know the element exists (nothing to allocate)
         assert(cret == 0);
         (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
+        umf_result_t ret2 = umfMemoryProviderAllocationMerge(
+            provider->hUpstream, ptr, highPtr, totalSize);
+        if (ret2 != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to revert the split, ptr=%p, "
+                    "size=%zu, ret=%d",
+                    ptr, totalSize, ret2);
+        }
+        // TODO: probably the best solution would be to try to preallocate everything
         // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
         goto err;
     }
-- 
2.43.0


From e3ea86b79c113edc959f9f61e03949ff661a3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:16 +0000
Subject: [PATCH 71/83] fix: an unknown NUMA mode is refused instead of
 aborting a debug build

---
 src/provider/provider_os_memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 46e80aa..29497b6 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -353,7 +353,7 @@ static umf_result_t validate_numa_mode(umf_numa_mode_t mode,
     case UMF_NUMA_MODE_PREFERRED:
         return UMF_RESULT_SUCCESS;
     default:
-        assert(0);
+        LOG_ERR("unknown NUMA mode: %i", (int)mode);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 }
-- 
2.43.0


From bca6d1d9c695dd394cd2e776d4f502645fc85ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 72/83] fix: a configuration file that grows while it is read
 no longer overruns the buffer

---
 src/ctl/ctl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index e328cb6..1cfd67d 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -564,7 +564,8 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
         size_t bufpos = 0;
         int c;
         int is_comment_section = 0;
-        while ((c = fgetc(fp)) != EOF) {
+        // the file could have grown since its size was read
+        while (bufpos < (size_t)fsize && (c = fgetc(fp)) != EOF) {
             if (c == '#') {
                 is_comment_section = 1;
             } else if (c == '\n') {
-- 
2.43.0


From 3a20b99ef80cca556506302f85cc565c2f0b4777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 73/83] fix: a memory policy keeps its own copy of the split
 partitions

---
 src/mempolicy.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mempolicy.c b/src/mempolicy.c
index 1b78053..3c1ea94 100644
--- a/src/mempolicy.c
+++ b/src/mempolicy.c
@@ -6,6 +6,9 @@
  * SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
  *
  */
+#include <stdint.h>
+#include <string.h>
+
 #include <umf/mempolicy.h>
 
 #include "base_alloc_global.h"
@@ -27,6 +30,7 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
     if (bind == UMF_MEMPOLICY_INTERLEAVE) {
         (*policy)->ops.interleave.part_size = 0;
     } else if (bind == UMF_MEMPOLICY_SPLIT) {
+        (*policy)->ops.split.part = NULL;
         (*policy)->ops.split.part_len = 0;
     }
 
@@ -34,6 +38,9 @@ umf_result_t umfMempolicyCreate(umf_mempolicy_membind_t bind,
 }
 
 umf_result_t umfMempolicyDestroy(umf_mempolicy_handle_t policy) {
+    if (policy != NULL && policy->type == UMF_MEMPOLICY_SPLIT) {
+        umf_ba_global_free(policy->ops.split.part);
+    }
     umf_ba_global_free(policy);
     return UMF_RESULT_SUCCESS;
 }
@@ -63,7 +70,21 @@ umfMempolicySetCustomSplitPartitions(umf_mempolicy_handle_t policy,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    policy->ops.split.part = partList;
+    umf_mempolicy_split_partition_t *part = NULL;
+    if (partListLen > 0) {
+        if (partList == NULL || partListLen > SIZE_MAX / sizeof(*part)) {
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        }
+
+        part = umf_ba_global_alloc(partListLen * sizeof(*part));
+        if (part == NULL) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
+        memcpy(part, partList, partListLen * sizeof(*part));
+    }
+
+    umf_ba_global_free(policy->ops.split.part);
+    policy->ops.split.part = part;
     policy->ops.split.part_len = partListLen;
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 10765e21e5c262213ce3b830e31e8bd646912680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:38 +0000
Subject: [PATCH 74/83] fix: a failed topology or memspace initialization is
 attempted again after a teardown

---
 src/memspaces/memspace_highest_bandwidth.c | 11 ++++++-----
 src/memspaces/memspace_highest_capacity.c  | 11 ++++++-----
 src/memspaces/memspace_host_all.c          | 11 ++++++-----
 src/memspaces/memspace_lowest_latency.c    | 11 ++++++-----
 src/topology.c                             | 11 ++++++-----
 5 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/memspaces/memspace_highest_bandwidth.c b/src/memspaces/memspace_highest_bandwidth.c
index 93fede2..9886375 100644
--- a/src/memspaces/memspace_highest_bandwidth.c
+++ b/src/memspaces/memspace_highest_bandwidth.c
@@ -90,12 +90,13 @@ void umfMemspaceHighestBandwidthDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_BANDWIDTH) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_BANDWIDTH);
         UMF_MEMSPACE_HIGHEST_BANDWIDTH = NULL;
-
-        // portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "UMF_MEMSPACE_HBW_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HBW_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HBW_INITIALIZED));
 }
 
 static void umfMemspaceHighestBandwidthInit(void) {
diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index c6cf1c1..cb98b3d 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -67,12 +67,13 @@ void umfMemspaceHighestCapacityDestroy(void) {
     if (UMF_MEMSPACE_HIGHEST_CAPACITY) {
         umfMemspaceDestroy(UMF_MEMSPACE_HIGHEST_CAPACITY);
         UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
-
-        // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED));
 }
 
 static void umfMemspaceHighestCapacityInit(void) {
diff --git a/src/memspaces/memspace_host_all.c b/src/memspaces/memspace_host_all.c
index 4b7db69..edd12fd 100644
--- a/src/memspaces/memspace_host_all.c
+++ b/src/memspaces/memspace_host_all.c
@@ -85,12 +85,13 @@ void umfMemspaceHostAllDestroy(void) {
     if (UMF_MEMSPACE_HOST_ALL) {
         umfMemspaceDestroy(UMF_MEMSPACE_HOST_ALL);
         UMF_MEMSPACE_HOST_ALL = NULL;
-
-        // portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "UMF_MEMSPACE_HOST_ALL_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));
 }
 
 static void umfMemspaceHostAllInit(void) {
diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 4d34eac..17fd402 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -91,12 +91,13 @@ void umfMemspaceLowestLatencyDestroy(void) {
     if (UMF_MEMSPACE_LOWEST_LATENCY) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
-
-        // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
-               sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+           sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
 }
 
 static void umfMemspaceLowestLatencyInit(void) {
diff --git a/src/topology.c b/src/topology.c
index 4930b11..006e3ee 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -19,12 +19,13 @@ void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
         topology = NULL;
-
-        // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&topology_initialized, &is_initialized,
-               sizeof(topology_initialized));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&topology_initialized, &is_initialized,
+           sizeof(topology_initialized));
 }
 
 static void umfCreateTopology(void) {
-- 
2.43.0


From 47375fba654e3de57ae5100576ab328e9fc7a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:38 +0000
Subject: [PATCH 75/83] fix: a failed GPU library initialization is attempted
 again after a teardown

---
 src/provider/provider_cuda.c       | 14 ++++++++------
 src/provider/provider_level_zero.c | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_cuda.c b/src/provider/provider_cuda.c
index f52b142..e90059a 100644
--- a/src/provider/provider_cuda.c
+++ b/src/provider/provider_cuda.c
@@ -20,16 +20,19 @@
 static void *cu_lib_handle = NULL;
 static UTIL_ONCE_FLAG cu_is_initialized = UTIL_ONCE_FLAG_INIT;
 
+static bool Init_cu_global_state_failed;
+
 void fini_cu_global_state(void) {
     if (cu_lib_handle) {
         utils_close_library(cu_lib_handle);
         cu_lib_handle = NULL;
-
-        // portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&cu_is_initialized, &is_initialized,
-               sizeof(cu_is_initialized));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "cu_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&cu_is_initialized, &is_initialized, sizeof(cu_is_initialized));
+    Init_cu_global_state_failed = false;
 }
 
 #if defined(UMF_NO_CUDA_PROVIDER)
@@ -156,7 +159,6 @@ typedef struct cu_ops_t {
 typedef CUipcMemHandle cu_ipc_data_t;
 
 static cu_ops_t g_cu_ops;
-static bool Init_cu_global_state_failed;
 
 // forward decl needed for alloc
 static umf_result_t cu_memory_provider_free(void *provider, void *ptr,
diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 38d5cff..e39093a 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -22,16 +22,19 @@
 static void *ze_lib_handle = NULL;
 static UTIL_ONCE_FLAG ze_is_initialized = UTIL_ONCE_FLAG_INIT;
 
+static bool Init_ze_global_state_failed;
+
 void fini_ze_global_state(void) {
     if (ze_lib_handle) {
         utils_close_library(ze_lib_handle);
         ze_lib_handle = NULL;
-
-        // portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&ze_is_initialized, &is_initialized,
-               sizeof(ze_is_initialized));
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "ze_is_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&ze_is_initialized, &is_initialized, sizeof(ze_is_initialized));
+    Init_ze_global_state_failed = false;
 }
 
 #if defined(UMF_NO_LEVEL_ZERO_PROVIDER)
@@ -195,7 +198,6 @@ typedef struct ze_ops_t {
 } ze_ops_t;
 
 static ze_ops_t g_ze_ops;
-static bool Init_ze_global_state_failed;
 static __TLS ze_result_t TLS_last_native_error;
 
 static void store_last_native_error(int32_t native_error) {
-- 
2.43.0


From 9471d181cf2fdbd4adf2044f79486e922208db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:38 +0000
Subject: [PATCH 76/83] fix: a failed TBB initialization is attempted again
 after a teardown

---
 src/pool/pool_scalable.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index b99e114..2b886b5 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -168,16 +168,19 @@ static int init_tbb_callbacks(void) {
 
 void fini_tbb_global_state(void) {
     if (tbb_callbacks.lib_handle) {
-        if (!utils_close_library(tbb_callbacks.lib_handle)) {
-            tbb_callbacks.lib_handle = NULL;
-            // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
-            static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-            memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
-            LOG_DEBUG("TBB library closed");
-        } else {
+        if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("TBB library cannot be unloaded");
+            return;
         }
+        tbb_callbacks.lib_handle = NULL;
+        LOG_DEBUG("TBB library closed");
     }
+
+    // also after a failed initialization: the next one has to be attempted
+    // again; portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
+    tbb_init_result = 0;
 }
 
 static void *tbb_raw_alloc_wrapper(intptr_t pool_id, size_t *raw_bytes) {
-- 
2.43.0


From 54ba15fa79bf0c2a1b3554c381179ce619751d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 77/83] fix: a new memory block starts as not used

---
 src/coarse/coarse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 7299e7d..96e00b6 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -169,6 +169,7 @@ static block_t *coarse_ravl_add_new(struct ravl *rtree, unsigned char *data,
 
     block->data = data;
     block->size = size;
+    block->used = false;
     block->free_list_ptr = NULL;
 
     ravl_data_t rdata = {(uintptr_t)block->data, block};
-- 
2.43.0


From 86e14f8107855cb5bd46e7317da8976ad2a90b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:53 +0000
Subject: [PATCH 78/83] fix: an empty list of free blocks is not left behind
 when adding to it fails

---
 src/coarse/coarse.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 96e00b6..b411bd8 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -347,7 +347,16 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
-        return -1; // out of memory
+        // out of memory - do not leave an empty list in the tree
+        if (head_node->head == NULL) {
+            node = ravl_find(free_blocks, &head_node_data,
+                             RAVL_PREDICATE_EQUAL);
+            if (node) {
+                ravl_remove(free_blocks, node);
+            }
+            umf_ba_global_free(head_node);
+        }
+        return -1;
     }
 
     assert(block->free_list_ptr->block->size == block->size);
-- 
2.43.0


From b62e7b2fb2f653c04f3d020c81ffa4d7803e3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:53 +0000
Subject: [PATCH 79/83] fix: undo the split of a block when its parts cannot be
 listed as free

---
 src/coarse/coarse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index b411bd8..52f3853 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -710,6 +710,10 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
 
         rv = free_blocks_add(coarse->free_blocks, curr);
         if (rv) {
+            // undo the split
+            curr->size += aligned_block->size;
+            (void)coarse_ravl_rm(coarse->all_blocks, aligned_block->data);
+            umf_ba_global_free(aligned_block);
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
@@ -744,6 +748,9 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
 
     int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
     if (rv) {
+        // undo the split
+        (void)coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
-- 
2.43.0


From 2fbb6e89582bf739f39f6141857dacfda4306192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 80/83] fix: a name that merely starts with a number is not an
 index

---
 src/ctl/ctl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 1cfd67d..5bda86a 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -159,7 +159,7 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
         long index_value = strtol(node_name, &endptr, 0);
         errno = tmp_errno;
         umf_ctl_index_utlist_t *index_entry = NULL;
-        if (endptr != node_name) { /* a valid index */
+        if (endptr != node_name && *endptr == '\0') { /* a valid index */
             index_entry = umf_ba_global_alloc(sizeof(*index_entry));
             if (index_entry == NULL) {
                 goto error;
-- 
2.43.0


From 6ab5068f84c48699a6a7a863d2e147fe271da899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 81/83] fix: a query of a tree of its own does not reach the
 global handlers

---
 src/ctl/ctl.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 5bda86a..26fa673 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -404,14 +404,10 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
     int ret = -1;
     size_t name_offset = 0;
 
+    // the handlers of another tree expect another kind of context
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
-
-    if (n == NULL && ctl) {
-        ctl_delete_indexes(indexes);
-        indexes = NULL;
-        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
-    }
+        ctl_find_node(ctl ? ctl->root : CTL_NODE(global), name, &indexes,
+                      &name_offset);
 
     // if the appropriate node (leaf or subtree) is not found, then return error
     if (n == NULL ||
-- 
2.43.0


From 78eaf7ea1f39cd97fc932edf3bd7ff7725acd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 82/83] fix: no control query without a control tree

---
 src/pool/pool_scalable.c          | 6 ++++++
 src/provider/provider_os_memory.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 2b886b5..165ed7e 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -442,6 +442,9 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
 
 static void initialize_pool_ctl(void) {
     pool_scallable_ctl_root = ctl_new();
+    if (pool_scallable_ctl_root == NULL) {
+        return;
+    }
     CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
 }
 
@@ -450,6 +453,9 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
+    if (pool_scallable_ctl_root == NULL) {
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
     return ctl_query(pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg)
                ? UMF_RESULT_ERROR_INVALID_ARGUMENT
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 29497b6..d7cb499 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -259,6 +259,9 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
 
 static void initialize_os_ctl(void) {
     os_memory_ctl_root = ctl_new();
+    if (os_memory_ctl_root == NULL) {
+        return;
+    }
     CTL_REGISTER_MODULE(os_memory_ctl_root, params);
     CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
 }
@@ -1562,6 +1565,9 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
+    if (os_memory_ctl_root == NULL) {
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
     return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg)
                ? UMF_RESULT_ERROR_INVALID_ARGUMENT
-- 
2.43.0


From 4a1c63d32fa7a1a0fdaf995b8e33a566c656a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:25 +0000
Subject: [PATCH 83/83] fix: publish a replaced value of the address index
 before readers can see it

---
 src/critnib/critnib.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..f9e1499 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -358,7 +358,8 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
         free_leaf(c, to_leaf(kn));
 
         if (update) {
-            to_leaf(n)->value = value;
+            // what the value points to must be visible to readers before it
+            utils_atomic_store_release_ptr(&to_leaf(n)->value, value);
             utils_mutex_unlock(&c->mutex);
             return 0;
         } else {
@@ -510,7 +511,10 @@ void *critnib_get(struct critnib *c, word key) {
 
         /* ... as we check it at the end. */
         struct critnib_leaf *k = to_leaf(n);
-        res = (n && k->key == key) ? k->value : NULL;
+        res = NULL;
+        if (n && k->key == key) {
+            utils_atomic_load_acquire_ptr(&k->value, &res);
+        }
         utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
     } while (wrs1 + DELETED_LIFE <= wrs2);
 
@@ -631,7 +635,10 @@ void *critnib_find_le(struct critnib *c, word key) {
         struct critnib_node *n; /* avoid a subtle TOCTOU */
         utils_atomic_load_acquire_ptr((void **)&c->root, (void **)&n);
         struct critnib_leaf *k = n ? find_le(n, key) : NULL;
-        res = k ? k->value : NULL;
+        res = NULL;
+        if (k) {
+            utils_atomic_load_acquire_ptr(&k->value, &res);
+        }
         utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
     } while (wrs1 + DELETED_LIFE <= wrs2);
 
@@ -724,7 +731,7 @@ int critnib_find(struct critnib *c, uintptr_t key, enum find_dir_t dir,
     uint64_t wrs1, wrs2;
     struct critnib_leaf *k;
     uintptr_t _rkey = (uintptr_t)0x0;
-    void **_rvalue = NULL;
+    void *_rvalue = NULL;
 
     /* <42 ≡ ≤41 */
     if (dir < -1) {
@@ -760,7 +767,7 @@ int critnib_find(struct critnib *c, uintptr_t key, enum find_dir_t dir,
         }
         if (k) {
             _rkey = k->key;
-            _rvalue = k->value;
+            utils_atomic_load_acquire_ptr(&k->value, &_rvalue);
         }
         utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
     } while (wrs1 + DELETED_LIFE <= wrs2);
-- 
2.43.0

