From c6c3bc297e106086fa08a78db3d38eaa8b3bccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:40 +0000
Subject: [PATCH 001/120] fix: never read memory in front of pointers a memory
 pool did not hand out

mcp_pool_free and mcp_pool_get_block_size looked for a block header in front of
any pointer, also one that came from malloc. Pools now keep their chunks in a
region table, so a pointer is looked up by address. Pool growth keeps every
chunk so destroy can free it.
---
 src/common/mcp_memory_pool.c | 295 +++++++++++++++++++++--------------
 1 file changed, 182 insertions(+), 113 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..78d4c34 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -3,9 +3,15 @@
 #include "mcp_thread_cache.h"
 #include "mcp_sync.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Magic value to identify blocks allocated from pools
 #define MCP_POOL_MAGIC 0xABCD1234
@@ -17,6 +23,12 @@ typedef struct mcp_block_header {
     struct mcp_block_header* next; // Next block in free list
 } mcp_block_header_t;
 
+// A contiguous run of blocks obtained with a single malloc
+typedef struct mcp_pool_chunk {
+    struct mcp_pool_chunk* next; // Next chunk of the same pool
+    size_t block_count;          // Number of blocks in this chunk
+} mcp_pool_chunk_t;
+
 // Memory pool implementation
 struct mcp_memory_pool {
     size_t block_size;           // Size of each block (including header)
@@ -28,9 +40,34 @@ struct mcp_memory_pool {
     size_t peak_usage;           // Peak number of blocks in use
     mcp_block_header_t* free_list; // List of free blocks
     mcp_mutex_t* lock;           // Mutex for thread safety
-    void* memory_block;          // Pointer to the pre-allocated memory block (if any)
+    mcp_pool_chunk_t* chunks;    // All memory obtained by this pool
 };
 
+// Address ranges of all chunks of all pools, sorted by start address. Used to tell
+// pool blocks from other heap memory without reading in front of foreign pointers.
+typedef struct {
+    char* start;
+    char* end;
+    mcp_memory_pool_t* pool;
+} pool_region_t;
+
+static pool_region_t* g_regions = NULL;
+static size_t g_region_count = 0;
+static size_t g_region_capacity = 0;
+#ifdef _WIN32
+static SRWLOCK g_region_lock = SRWLOCK_INIT;
+#define region_read_lock()    AcquireSRWLockShared(&g_region_lock)
+#define region_read_unlock()  ReleaseSRWLockShared(&g_region_lock)
+#define region_write_lock()   AcquireSRWLockExclusive(&g_region_lock)
+#define region_write_unlock() ReleaseSRWLockExclusive(&g_region_lock)
+#else
+static pthread_rwlock_t g_region_lock = PTHREAD_RWLOCK_INITIALIZER;
+#define region_read_lock()    pthread_rwlock_rdlock(&g_region_lock)
+#define region_read_unlock()  pthread_rwlock_unlock(&g_region_lock)
+#define region_write_lock()   pthread_rwlock_wrlock(&g_region_lock)
+#define region_write_unlock() pthread_rwlock_unlock(&g_region_lock)
+#endif
+
 // Global memory pools
 static mcp_memory_pool_t* g_pools[MCP_POOL_SIZE_COUNT] = {NULL};
 static bool g_pools_initialized = false;
@@ -45,6 +82,8 @@ __thread static size_t tls_cache_count[MCP_POOL_SIZE_COUNT] = {0};
 #endif
 
 // Forward declarations
+static bool add_chunk(mcp_memory_pool_t* pool, size_t block_count);
+static mcp_memory_pool_t* find_owning_pool(const void* ptr);
 static void* allocate_from_pool(mcp_memory_pool_t* pool);
 static bool return_to_pool(mcp_memory_pool_t* pool, void* block);
 static mcp_pool_size_class_t get_size_class(size_t size);
@@ -73,7 +112,7 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     pool->free_blocks = 0;
     pool->peak_usage = 0;
     pool->free_list = NULL;
-    pool->memory_block = NULL;
+    pool->chunks = NULL;
 
     // Create mutex for thread safety
     pool->lock = mcp_mutex_create();
@@ -84,46 +123,13 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     }
 
     // Pre-allocate initial blocks if requested
+    // Pre-allocate blocks if requested
     if (initial_blocks > 0) {
-        // Allocate a single contiguous block for better memory locality
-        size_t total_size = initial_blocks * pool->block_size;
-        pool->memory_block = malloc(total_size);
-
-        if (pool->memory_block) {
-            // Initialize each block and add to free list
-            char* block_ptr = (char*)pool->memory_block;
-
-            for (size_t i = 0; i < initial_blocks; i++) {
-                mcp_block_header_t* header = (mcp_block_header_t*)block_ptr;
-                header->magic = MCP_POOL_MAGIC;
-                header->pool = pool;
-                header->next = pool->free_list;
-                pool->free_list = header;
-
-                block_ptr += pool->block_size;
-            }
-
-            pool->total_blocks = initial_blocks;
-            pool->free_blocks = initial_blocks;
-
-            mcp_log_debug("Memory pool created with %zu blocks of %zu bytes each (%zu user bytes)",
-                         initial_blocks, pool->block_size, pool->user_block_size);
-        } else {
-            // Fall back to allocating blocks individually
+        if (!add_chunk(pool, initial_blocks)) {
             mcp_log_warn("Failed to allocate contiguous memory block, falling back to individual allocations");
 
             for (size_t i = 0; i < initial_blocks; i++) {
-                void* block = malloc(pool->block_size);
-                if (block) {
-                    mcp_block_header_t* header = (mcp_block_header_t*)block;
-                    header->magic = MCP_POOL_MAGIC;
-                    header->pool = pool;
-                    header->next = pool->free_list;
-                    pool->free_list = header;
-
-                    pool->total_blocks++;
-                    pool->free_blocks++;
-                } else {
+                if (!add_chunk(pool, 1)) {
                     mcp_log_error("Failed to allocate block %zu/%zu", i + 1, initial_blocks);
                     break;
                 }
@@ -135,10 +141,10 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
                 free(pool);
                 return NULL;
             }
-
-            mcp_log_debug("Memory pool created with %zu blocks of %zu bytes each (%zu user bytes)",
-                         pool->total_blocks, pool->block_size, pool->user_block_size);
         }
+
+        mcp_log_debug("Memory pool created with %zu blocks of %zu bytes each (%zu user bytes)",
+                     pool->total_blocks, pool->block_size, pool->user_block_size);
     }
 
     return pool;
@@ -149,18 +155,29 @@ void mcp_memory_pool_destroy(mcp_memory_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If we allocated a contiguous memory block, free it
-    if (pool->memory_block) {
-        free(pool->memory_block);
-    } else {
-        // Otherwise, free each block individually
-        mcp_block_header_t* current = pool->free_list;
-        while (current) {
-            mcp_block_header_t* next = current->next;
-            free(current);
-            current = next;
+    // Forget the address ranges of this pool
+    region_write_lock();
+    size_t kept = 0;
+    for (size_t i = 0; i < g_region_count; i++) {
+        if (g_regions[i].pool != pool) {
+            g_regions[kept++] = g_regions[i];
         }
     }
+    g_region_count = kept;
+    if (g_region_count == 0) {
+        free(g_regions);
+        g_regions = NULL;
+        g_region_capacity = 0;
+    }
+    region_write_unlock();
+
+    // Free all memory obtained by this pool
+    mcp_pool_chunk_t* chunk = pool->chunks;
+    while (chunk) {
+        mcp_pool_chunk_t* next = chunk->next;
+        free(chunk);
+        chunk = next;
+    }
 
     mcp_mutex_unlock(pool->lock);
     mcp_mutex_destroy(pool->lock);
@@ -293,19 +310,15 @@ void* mcp_pool_alloc(size_t size) {
 void mcp_pool_free(void* ptr) {
     if (!ptr) return;
 
-    // Check if this is a pool-allocated block by looking at the header
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
-
-    // If the magic value doesn't match, assume it was allocated with malloc
-    if (header->magic != MCP_POOL_MAGIC) {
+    // Check if this is a pool block
+    mcp_memory_pool_t* pool = find_owning_pool(ptr);
+    if (!pool) {
+        // Not a pool block, use standard free
         free(ptr);
         return;
     }
 
-    // Get the pool from the header
-    mcp_memory_pool_t* pool = header->pool;
-
-    // Return directly to the pool - no thread cache dependency
+    // Return to the appropriate pool
     return_to_pool(pool, ptr);
 }
 
@@ -318,53 +331,115 @@ bool mcp_pool_get_stats(mcp_pool_size_class_t size_class, mcp_memory_pool_stats_
 }
 
 // Helper function to allocate a block from a pool
-static void* allocate_from_pool(mcp_memory_pool_t* pool) {
-    mcp_mutex_lock(pool->lock);
+// Obtains memory for block_count more blocks and puts them on the free list.
+// The caller holds the pool lock (or is the only user of the pool).
+static bool add_chunk(mcp_memory_pool_t* pool, size_t block_count) {
+    if (block_count > (SIZE_MAX - sizeof(mcp_pool_chunk_t)) / pool->block_size) {
+        return false;
+    }
 
-    // Check if we have a free block
-    if (pool->free_list) {
-        // Get a block from the free list
-        mcp_block_header_t* header = pool->free_list;
-        pool->free_list = header->next;
-        pool->free_blocks--;
-
-        // Update peak usage statistics
-        size_t current_usage = pool->total_blocks - pool->free_blocks;
-        if (current_usage > pool->peak_usage) {
-            pool->peak_usage = current_usage;
+    size_t data_size = block_count * pool->block_size;
+    mcp_pool_chunk_t* chunk = (mcp_pool_chunk_t*)malloc(sizeof(mcp_pool_chunk_t) + data_size);
+    if (!chunk) {
+        return false;
+    }
+    char* data = (char*)(chunk + 1);
+
+    // Register the address range, keeping the table sorted
+    region_write_lock();
+    if (g_region_count == g_region_capacity) {
+        size_t new_capacity = g_region_capacity ? g_region_capacity * 2 : 16;
+        pool_region_t* regions = (pool_region_t*)realloc(g_regions, new_capacity * sizeof(pool_region_t));
+        if (!regions) {
+            region_write_unlock();
+            free(chunk);
+            return false;
         }
-
-        mcp_mutex_unlock(pool->lock);
-
-        // Return the user portion of the block (after the header)
-        return (char*)header + sizeof(mcp_block_header_t);
+        g_regions = regions;
+        g_region_capacity = new_capacity;
     }
-
-    // No free blocks, check if we can allocate more
-    if (pool->max_blocks > 0 && pool->total_blocks >= pool->max_blocks) {
-        // Pool is at capacity
-        mcp_mutex_unlock(pool->lock);
-        mcp_log_warn("Memory pool at capacity (%zu blocks)", pool->max_blocks);
-        return NULL;
+    size_t pos = g_region_count;
+    while (pos > 0 && g_regions[pos - 1].start > data) {
+        g_regions[pos] = g_regions[pos - 1];
+        pos--;
     }
+    g_regions[pos].start = data;
+    g_regions[pos].end = data + data_size;
+    g_regions[pos].pool = pool;
+    g_region_count++;
+    region_write_unlock();
+
+    chunk->block_count = block_count;
+    chunk->next = pool->chunks;
+    pool->chunks = chunk;
+
+    for (size_t i = 0; i < block_count; i++) {
+        mcp_block_header_t* header = (mcp_block_header_t*)(data + i * pool->block_size);
+        header->magic = MCP_POOL_MAGIC;
+        header->pool = pool;
+        header->next = pool->free_list;
+        pool->free_list = header;
+    }
+    pool->total_blocks += block_count;
+    pool->free_blocks += block_count;
+    return true;
+}
 
-    // Allocate a new block
-    mcp_block_header_t* header = (mcp_block_header_t*)malloc(pool->block_size);
-    if (!header) {
-        mcp_mutex_unlock(pool->lock);
-        mcp_log_error("Failed to allocate new block for memory pool");
-        return NULL;
+// Returns the pool a block belongs to, or NULL if the memory does not come from a pool.
+static mcp_memory_pool_t* find_owning_pool(const void* ptr) {
+    mcp_memory_pool_t* pool = NULL;
+    const char* p = (const char*)ptr;
+
+    region_read_lock();
+    size_t lo = 0, hi = g_region_count;
+    while (lo < hi) {
+        size_t mid = lo + (hi - lo) / 2;
+        if (p < g_regions[mid].start) {
+            hi = mid;
+        } else if (p >= g_regions[mid].end) {
+            lo = mid + 1;
+        } else {
+            pool = g_regions[mid].pool;
+            break;
+        }
     }
+    region_read_unlock();
+    return pool;
+}
 
-    // Initialize the header
-    header->magic = MCP_POOL_MAGIC;
-    header->pool = pool;
-    header->next = NULL;
+static void* allocate_from_pool(mcp_memory_pool_t* pool) {
+    mcp_mutex_lock(pool->lock);
 
-    // Update pool statistics
-    pool->total_blocks++;
+    // Grow the pool if no block is free
+    if (!pool->free_list) {
+        // Check if we've reached the maximum number of blocks
+        if (pool->max_blocks > 0 && pool->total_blocks >= pool->max_blocks) {
+            mcp_mutex_unlock(pool->lock);
+            mcp_log_warn("Memory pool at capacity (%zu blocks)", pool->max_blocks);
+            return NULL;
+        }
 
-    // Update peak usage statistics
+        // Grow proportionally so that the number of chunks stays small
+        size_t grow_by = pool->total_blocks / 2;
+        if (grow_by == 0) {
+            grow_by = 1;
+        }
+        if (pool->max_blocks > 0 && grow_by > pool->max_blocks - pool->total_blocks) {
+            grow_by = pool->max_blocks - pool->total_blocks;
+        }
+        if (!add_chunk(pool, grow_by) && !(grow_by > 1 && add_chunk(pool, 1))) {
+            mcp_mutex_unlock(pool->lock);
+            mcp_log_error("Failed to allocate new block for memory pool");
+            return NULL;
+        }
+    }
+
+    // Get a block from the free list
+    mcp_block_header_t* header = pool->free_list;
+    pool->free_list = header->next;
+    pool->free_blocks--;
+
+    // Update peak usage
     size_t current_usage = pool->total_blocks - pool->free_blocks;
     if (current_usage > pool->peak_usage) {
         pool->peak_usage = current_usage;
@@ -372,7 +447,7 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool) {
 
     mcp_mutex_unlock(pool->lock);
 
-    // Return the user portion of the block
+    // Return the user data portion of the block
     return (char*)header + sizeof(mcp_block_header_t);
 }
 
@@ -380,10 +455,15 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool) {
 static bool return_to_pool(mcp_memory_pool_t* pool, void* block) {
     if (!pool || !block) return false;
 
+    // Verify that this block belongs to this pool before looking at its header
+    if (find_owning_pool(block) != pool) {
+        mcp_log_error("Attempt to return invalid block to memory pool");
+        return false;
+    }
+
     // Get the header from the user block
     mcp_block_header_t* header = (mcp_block_header_t*)((char*)block - sizeof(mcp_block_header_t));
 
-    // Verify that this block belongs to this pool
     if (header->magic != MCP_POOL_MAGIC || header->pool != pool) {
         mcp_log_error("Attempt to return invalid block to memory pool");
         return false;
@@ -431,17 +511,6 @@ static size_t get_block_size_for_class(mcp_pool_size_class_t size_class) {
 size_t mcp_pool_get_block_size(void* ptr) {
     if (!ptr) return 0;
 
-    // Check if this is a pool-allocated block by looking at the header
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)ptr - sizeof(mcp_block_header_t));
-
-    // If the magic value doesn't match, it's not a pool-allocated block
-    if (header->magic != MCP_POOL_MAGIC) {
-        return 0;
-    }
-
-    // Get the pool from the header
-    mcp_memory_pool_t* pool = header->pool;
-
-    // Return the user block size
-    return pool->user_block_size;
+    mcp_memory_pool_t* pool = find_owning_pool(ptr);
+    return pool ? pool->user_block_size : 0;
 }
-- 
2.43.0


From 9a379ceee7195a1cd706381c6f44d0be0ecc40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:40 +0000
Subject: [PATCH 002/120] fix: cache freed blocks under their real size in the
 thread cache

A block was cached under the size the caller named when freeing it. A later
allocation could then receive a block smaller than it asked for.
---
 src/common/mcp_thread_cache.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/common/mcp_thread_cache.c b/src/common/mcp_thread_cache.c
index f32a1a6..633e163 100644
--- a/src/common/mcp_thread_cache.c
+++ b/src/common/mcp_thread_cache.c
@@ -425,6 +425,8 @@ bool mcp_thread_cache_init_with_config(const mcp_thread_cache_config_t* config)
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     // Enable LRU by default
@@ -716,14 +718,12 @@ void mcp_thread_cache_free(void* ptr, size_t size) {
     // Increment operation counter for adaptive sizing
     tls_operations_since_adjustment++;
 
-    // If size is 0, try to determine it from the block
-    if (size == 0) {
-        size = mcp_pool_get_block_size(ptr);
-        // If we still don't know the size, we can't cache it
-        if (size == 0) {
-            free(ptr);
-            return;
-        }
+    // Only blocks of one of the pool size classes can be handed out again for any request
+    // of that class. The size passed in says nothing about the real capacity of the block.
+    size = mcp_pool_get_block_size(ptr);
+    if (size != SMALL_BLOCK_SIZE && size != MEDIUM_BLOCK_SIZE && size != LARGE_BLOCK_SIZE) {
+        mcp_pool_free(ptr);
+        return;
     }
 
     // Fast path for small blocks (most common case)
@@ -1032,6 +1032,8 @@ bool mcp_thread_cache_configure(const mcp_thread_cache_config_t* config) {
     if (tls_shrink_threshold > 1.0) tls_shrink_threshold = 1.0;
 
     if (tls_min_cache_size < 1) tls_min_cache_size = 1;
+    if (tls_min_cache_size > MAX_CACHE_SIZE) tls_min_cache_size = MAX_CACHE_SIZE;
+    if (tls_max_cache_size > MAX_CACHE_SIZE) tls_max_cache_size = MAX_CACHE_SIZE;
     if (tls_max_cache_size < tls_min_cache_size) tls_max_cache_size = tls_min_cache_size;
 
     mcp_log_debug("Thread-local cache reconfigured for thread %lu: LRU %s, adaptive sizing %s",
-- 
2.43.0


From e657e2d315c6f4c7eb5d092f3b4ef51e78b8c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:40 +0000
Subject: [PATCH 003/120] fix: check list emptiness and the shared node pool
 under a lock

pop_front, pop_back and move_to_front looked at head and tail before taking the
list lock. The node pool shared by all lists was reference counted without one.
---
 src/common/mcp_list.c | 44 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..1923ea7 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -9,6 +9,11 @@
 #include "mcp_log.h"
 #include "mcp_buffer_pool.h"
 #include "mcp_sync.h"
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Memory pool size definition
 #define MCP_LIST_NODE_POOL_SIZE 64
@@ -37,11 +42,24 @@ typedef struct {
 // Global memory pool
 static mcp_list_pool_t* g_list_pool = NULL;
 
+// Guards creation, reference count and destruction of the global memory pool
+#ifdef _WIN32
+static SRWLOCK g_list_pool_lock = SRWLOCK_INIT;
+#define LIST_POOL_LOCK()   AcquireSRWLockExclusive(&g_list_pool_lock)
+#define LIST_POOL_UNLOCK() ReleaseSRWLockExclusive(&g_list_pool_lock)
+#else
+static pthread_mutex_t g_list_pool_lock = PTHREAD_MUTEX_INITIALIZER;
+#define LIST_POOL_LOCK()   pthread_mutex_lock(&g_list_pool_lock)
+#define LIST_POOL_UNLOCK() pthread_mutex_unlock(&g_list_pool_lock)
+#endif
+
 // Initialize global memory pool
 static mcp_list_pool_t* mcp_list_pool_get(void) {
+    LIST_POOL_LOCK();
     if (!g_list_pool) {
         g_list_pool = (mcp_list_pool_t*)malloc(sizeof(mcp_list_pool_t));
         if (!g_list_pool) {
+            LIST_POOL_UNLOCK();
             mcp_log_error("Failed to allocate list pool structure");
             return NULL;
         }
@@ -51,6 +69,7 @@ static mcp_list_pool_t* mcp_list_pool_get(void) {
             mcp_log_error("Failed to create list node pool");
             free(g_list_pool);
             g_list_pool = NULL;
+            LIST_POOL_UNLOCK();
             return NULL;
         }
 
@@ -58,11 +77,14 @@ static mcp_list_pool_t* mcp_list_pool_get(void) {
     }
 
     g_list_pool->pool_refs++;
-    return g_list_pool;
+    mcp_list_pool_t* pool = g_list_pool;
+    LIST_POOL_UNLOCK();
+    return pool;
 }
 
 // Release reference to global memory pool
 static void mcp_list_pool_release(void) {
+    LIST_POOL_LOCK();
     if (g_list_pool && g_list_pool->pool_refs > 0) {
         g_list_pool->pool_refs--;
 
@@ -72,6 +94,7 @@ static void mcp_list_pool_release(void) {
             g_list_pool = NULL;
         }
     }
+    LIST_POOL_UNLOCK();
 }
 
 // Allocate node from memory pool
@@ -264,12 +287,16 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
 }
 
 void* mcp_list_pop_front(mcp_list_t* list) {
-    if (!list || !list->head) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->head;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->head = node->next;
@@ -293,12 +320,16 @@ void* mcp_list_pop_front(mcp_list_t* list) {
 }
 
 void* mcp_list_pop_back(mcp_list_t* list) {
-    if (!list || !list->tail) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->tail;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->tail = node->prev;
@@ -322,11 +353,16 @@ void* mcp_list_pop_back(mcp_list_t* list) {
 }
 
 void mcp_list_move_to_front(mcp_list_t* list, mcp_list_node_t* node) {
-    if (!list || !node || node == list->head) return;
+    if (!list || !node) return;
 
     // Lock
     MCP_LIST_LOCK(list);
 
+    if (node == list->head) {
+        MCP_LIST_UNLOCK(list);
+        return;
+    }
+
     // Remove node from its current position
     if (node->prev) {
         node->prev->next = node->next;
-- 
2.43.0


From d3b5111e90d82e443466f4684383671223741990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:40 +0000
Subject: [PATCH 004/120] fix: time condition waits on the monotonic clock

mcp_cond_timedwait built its deadline from the wall clock, so a clock step made
waits end early or last much too long.
---
 src/common/mcp_sync.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..9dc807a 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,19 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+    // Timed waits compute their deadline on the monotonic clock where available
+    pthread_condattr_t attr;
+    if (pthread_condattr_init(&attr) != 0) {
+        mcp_log_error("Failed to initialize pthread condition variable attributes");
+        sync_free(cond);
+        return NULL;
+    }
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+    int init_result = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+    if (init_result != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +292,8 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
+    // The condition variable was created with the monotonic clock
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0


From 858b355f0a66256141a00f19416df1845869e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:40 +0000
Subject: [PATCH 005/120] fix: keep object pool capacity and free list
 consistent across threads

Objects parked in per-thread caches were lost when the thread ended and pointed
to a destroyed pool. The capacity check ran without the lock. Objects allocated
after creation leaked when the pool was destroyed.
---
 src/common/mcp_object_pool.c | 51 ++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..c71dcdc 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -22,7 +22,9 @@
 
 // Thread-local cache configuration
 #define TLS_CACHE_SIZE 8  // Number of objects to cache per thread
-#define TLS_CACHE_ENABLED 1  // Set to 0 to disable thread-local caching
+// Thread-local caching is off: cached objects are lost to the pool when their thread exits, and
+// the caches of other threads keep pointing to a pool after it has been destroyed.
+#define TLS_CACHE_ENABLED 0  // Set to 0 to disable thread-local caching
 
 // Internal structure for a node in the free list - cache aligned
 typedef MCP_CACHE_ALIGNED struct mcp_pool_node_s {
@@ -54,6 +56,7 @@ typedef struct mcp_object_pool_s {
     mcp_pool_node_t* free_list_head;   // Head of the linked list of free objects
     mcp_mutex_t* lock;                 // Mutex for thread safety
     void* memory_block;                // Pointer to the initially allocated contiguous block (if any)
+    size_t block_objects;              // Number of objects inside memory_block
 
     // Statistics - updated atomically when possible
     size_t peak_usage;                 // Peak number of objects in use
@@ -162,6 +165,7 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
         // Use aligned allocation for better memory access
         pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
         if (pool->memory_block) {
+            pool->block_objects = initial_capacity;
             pool->total_objects = initial_capacity;
             pool->free_objects = initial_capacity;
             char* current_obj_ptr = (char*)pool->memory_block;
@@ -248,12 +252,11 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If objects were allocated in a single block, just free the block
-    if (pool->memory_block) {
-        aligned_free(pool->memory_block);
-        pool->memory_block = NULL;
-    } else {
-        // Otherwise, need to free individually (only those currently in the free list)
+    {
+        char* block_start = (char*)pool->memory_block;
+        char* block_end = block_start + pool->block_objects * pool->aligned_size;
+
+        // Free objects that are not part of the initial block (only those currently in the free list)
         // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
         // A more robust implementation might track all allocated objects.
         mcp_pool_node_t* current = pool->free_list_head;
@@ -262,11 +265,10 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
         while (current) {
             next = current->next;
-            // Add NULL check before freeing
-            if (current != NULL) {
+            if (!block_start || (char*)current < block_start || (char*)current >= block_end) {
                 aligned_free(current);
-                freed_count++;
             }
+            freed_count++;
             current = next;
         }
 
@@ -276,6 +278,9 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
         }
         // Ideally, we should also free objects that were acquired but not released.
         // This simple version doesn't track acquired objects separately from the initial block.
+
+        aligned_free(pool->memory_block);
+        pool->memory_block = NULL;
     }
 
     pool->free_list_head = NULL;
@@ -328,22 +333,23 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
         mcp_pool_node_t* node = pool->free_list_head;
         pool->free_list_head = node->next;
         pool->free_objects--;
-        mcp_mutex_unlock(pool->lock);
 
         // Update statistics
         ATOMIC_INCREMENT(pool->current_usage);
         ATOMIC_EXCHANGE_MAX(pool->peak_usage, pool->current_usage);
+        mcp_mutex_unlock(pool->lock);
 
         // Optional: Clear memory before returning? Depends on usage.
         // memset(node, 0, pool->aligned_size);
         return (void*)node;
     }
 
-    // Free list is empty, try to allocate a new one if allowed
+    // Free list is empty, try to allocate a new one if allowed. The lock is kept so that
+    // concurrent callers cannot exceed the capacity together.
+    // Statistics are updated inside allocate_new_object
+    obj = allocate_new_object(pool);
     mcp_mutex_unlock(pool->lock);
-
-    // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
@@ -351,9 +357,6 @@ bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
         return false;
     }
 
-    // Update statistics
-    ATOMIC_DECREMENT(pool->current_usage);
-
 #if TLS_CACHE_ENABLED
     // Try to add the object to the thread-local cache first
     mcp_object_pool_tls_cache_t* tls_cache = find_tls_cache(pool);
@@ -365,6 +368,7 @@ bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
     if (tls_cache && tls_cache->count < TLS_CACHE_SIZE) {
         // Add the object to the thread-local cache
         tls_cache->objects[tls_cache->count++] = obj;
+        ATOMIC_DECREMENT(pool->current_usage);
         return true;
     }
 #endif
@@ -379,6 +383,9 @@ bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
     pool->free_list_head = node;
     pool->free_objects++;
 
+    // Update statistics
+    ATOMIC_DECREMENT(pool->current_usage);
+
     mcp_mutex_unlock(pool->lock);
 
     return true;
@@ -409,8 +416,10 @@ size_t mcp_object_pool_get_free_count(mcp_object_pool_t* pool) {
 size_t mcp_object_pool_get_total_count(mcp_object_pool_t* pool) {
     if (!pool) return 0;
 
-    // No need for a lock since we're just reading a value that's updated atomically
-    return pool->total_objects;
+    mcp_mutex_lock(pool->lock);
+    size_t total = pool->total_objects;
+    mcp_mutex_unlock(pool->lock);
+    return total;
 }
 
 // Get statistics about the object pool
@@ -427,10 +436,12 @@ bool mcp_object_pool_get_stats(mcp_object_pool_t* pool,
     size_t free_count = mcp_object_pool_get_free_count(pool);
 
     // Set output parameters
+    mcp_mutex_lock(pool->lock);
     if (total_objects) *total_objects = pool->total_objects;
     if (free_objects) *free_objects = free_count;
     if (current_usage) *current_usage = pool->current_usage;
     if (peak_usage) *peak_usage = pool->peak_usage;
+    mcp_mutex_unlock(pool->lock);
 
     return true;
 }
-- 
2.43.0


From 62dc437186f255793cee3718d1a0d4cb5f3c343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:40 +0000
Subject: [PATCH 006/120] fix: make thread pool run every accepted task exactly
 once

Any thread may submit, but the deques allowed only their owner to push and never
checked for room, so tasks were lost or run twice. Workers could leave at start
because the thread count was raised after they began. After a shrink nobody
looked at the deques of the workers that left, and growing again overwrote
threads still running. mcp_thread_pool_wait could return while a task was
running. resize could deadlock with a waiting worker.
---
 include/mcp_thread_pool.h                     |   4 +-
 .../internal/mcp_thread_pool_internal.h       |  12 +-
 src/common/mcp_thread_pool.c                  |  74 +++++++-----
 src/common/mcp_thread_pool_deque.c            | 106 +++++-------------
 src/common/mcp_thread_pool_stats.c            |  10 +-
 src/common/mcp_thread_pool_tasks.c            |  66 ++++-------
 src/common/mcp_thread_pool_worker.c           |  53 ++++-----
 7 files changed, 131 insertions(+), 194 deletions(-)

diff --git a/include/mcp_thread_pool.h b/include/mcp_thread_pool.h
index ca583db..b1868df 100644
--- a/include/mcp_thread_pool.h
+++ b/include/mcp_thread_pool.h
@@ -75,8 +75,8 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
 /**
  * @brief Waits for all currently queued tasks to complete.
  *
- * This function blocks until all tasks in the queue at the time of the call
- * have been processed, or until the specified timeout is reached.
+ * This function blocks until every task submitted so far has been processed,
+ * or until the specified timeout is reached.
  *
  * @param pool The thread pool instance.
  * @param timeout_ms Maximum time to wait in milliseconds. Use 0 for no timeout.
diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 564f95a..5db9b0b 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -45,11 +45,13 @@ typedef struct {
     size_t worker_index;
     volatile bool should_exit;  // Explicit exit flag for this worker
     volatile bool is_active;    // Whether this worker is currently active
+    volatile bool exited;       // Whether this worker has decided to leave (guarded by rwlock)
 } worker_arg_t;
 
 /**
- * @brief Lock-free work-stealing deque structure (Chase-Lev style inspired).
- * Simplified: Assumes single producer (owner thread pushes/pops bottom), multiple consumers (thieves steal top).
+ * @brief Work-stealing deque structure.
+ * Any thread may push (submitters are not workers), the owner pops bottom, thieves steal top.
+ * Elements are moved under the lock; top and bottom may be read without it.
  *
  * This structure is carefully designed to avoid false sharing:
  * - top is accessed by multiple thieves (readers) and occasionally by the owner
@@ -80,8 +82,10 @@ typedef struct {
     // Buffer pointer - aligned to cache line
     MCP_CACHE_ALIGNED mcp_task_t* buffer;     /**< Circular buffer for tasks. */
 
+    mcp_mutex_t* lock;                        /**< Protects buffer, top and bottom against concurrent changes. */
+
     // Final padding to ensure no false sharing with adjacent structures
-    char pad3[MCP_CACHE_LINE_SIZE - sizeof(size_t) - sizeof(mcp_task_t*)];
+    char pad3[MCP_CACHE_LINE_SIZE - sizeof(mcp_mutex_t*) - sizeof(mcp_task_t*)];
 } work_stealing_deque_t;
 
 /**
@@ -154,7 +158,7 @@ void store_int(volatile int* ptr, int value);
 // Atomic Fetch-and-Add for size_t
 size_t fetch_add_size(volatile size_t* ptr, size_t value);
 
-// Push task onto the bottom of the deque (owner thread only)
+// Push task onto the bottom of the deque (any thread), false if it is full
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task);
 
 // Pop task from the bottom of the deque (owner thread only)
diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 4606c0e..0d414a1 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -52,8 +52,8 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 
     // Allocate memory for threads, deques array, and sync primitives
     pool->threads = (mcp_thread_t*)malloc(sizeof(mcp_thread_t) * thread_count);
-    pool->deques = (work_stealing_deque_t*)malloc(sizeof(work_stealing_deque_t) * thread_count);
-    pool->worker_args = (worker_arg_t**)malloc(sizeof(worker_arg_t*) * thread_count);
+    pool->deques = (work_stealing_deque_t*)calloc(thread_count, sizeof(work_stealing_deque_t));
+    pool->worker_args = (worker_arg_t**)calloc(thread_count, sizeof(worker_arg_t*));
     pool->worker_status = (volatile int*)calloc(thread_count, sizeof(int));
     pool->tasks_stolen = (volatile size_t*)calloc(thread_count, sizeof(size_t));
     pool->tasks_executed = (volatile size_t*)calloc(thread_count, sizeof(size_t));
@@ -75,15 +75,9 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 #else
             pool->deques[i].buffer = (mcp_task_t*)malloc(sizeof(mcp_task_t) * pool->deque_capacity);
 #endif
-            if (pool->deques[i].buffer == NULL) {
+            pool->deques[i].lock = mcp_mutex_create();
+            if (pool->deques[i].buffer == NULL || pool->deques[i].lock == NULL) {
                 allocation_failed = true;
-                for (size_t j = 0; j < i; ++j) { // Free previously allocated buffers
-                    #ifdef _WIN32
-                        _aligned_free(pool->deques[j].buffer);
-                    #else
-                        free(pool->deques[j].buffer);
-                    #endif
-                }
                 break;
             }
             // Initialize deque state
@@ -116,6 +110,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
                         free(pool->deques[i].buffer);
                     #endif
                  }
+                 mcp_mutex_destroy(pool->deques[i].lock);
              }
              free(pool->deques);
         }
@@ -140,6 +135,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         arg->worker_index = i;
         arg->should_exit = false;  // Initialize exit flag
         arg->is_active = false;    // Initialize active flag
+        arg->exited = false;
 
         // Store the worker argument for later cleanup
         pool->worker_args[i] = arg;
@@ -195,14 +191,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
                  // Continue with cleanup anyway
              }
 
-             // Worker threads free their own arguments when they exit normally
-         }
-
-         // Free any worker arguments that weren't passed to threads
-         for (size_t i = pool->started; i < thread_count; ++i) {
-             if (pool->worker_args[i]) {
-                 free(pool->worker_args[i]);
-             }
+             free(pool->worker_args[i]);
          }
 
          // Full cleanup - first free regular memory resources
@@ -221,6 +210,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
                      free(pool->deques[i].buffer);
 #endif
                  }
+                 mcp_mutex_destroy(pool->deques[i].lock);
              }
              free(pool->deques);
          }
@@ -244,6 +234,12 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
     // Take write lock for thread-safe resizing
     mcp_rwlock_write_lock(pool->rwlock);
 
+    // The worker threads of a pool that is shutting down are being joined
+    if (pool->shutdown_flag != 0) {
+        mcp_rwlock_write_unlock(pool->rwlock);
+        return -1;
+    }
+
     // If new size is same as current, nothing to do
     if (new_thread_count == pool->thread_count) {
         mcp_rwlock_write_unlock(pool->rwlock);
@@ -273,21 +269,25 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
         }
 
         // Set new thread count after signaling exit flags
+        size_t old_thread_count = pool->thread_count;
         pool->thread_count = new_thread_count;
 
-        // Signal all threads to check their exit flags
-        mcp_mutex_lock(pool->cond_mutex);
-        mcp_cond_broadcast(pool->notify);
-        mcp_mutex_unlock(pool->cond_mutex);
-
         // Worker threads will exit when they see their should_exit flag is true
-        mcp_log_debug("Pool shrunk from %zu to %zu threads", pool->thread_count + (pool->thread_count - new_thread_count), new_thread_count);
+        mcp_log_debug("Pool shrunk from %zu to %zu threads", old_thread_count, new_thread_count);
     }
     // If expanding
     else {
         // Create new worker threads
         size_t threads_to_add = new_thread_count - pool->thread_count;
         for (size_t i = 0; i < threads_to_add; i++) {
+            size_t index = pool->thread_count + i;
+            worker_arg_t* old_arg = pool->worker_args[index];
+            if (old_arg && !old_arg->exited) {
+                // The previous worker of this slot has not left yet, keep it
+                old_arg->should_exit = false;
+                continue;
+            }
+
             worker_arg_t* arg = (worker_arg_t*)malloc(sizeof(worker_arg_t));
             if (!arg) {
                 mcp_log_error("Failed to allocate memory for worker arg");
@@ -296,17 +296,24 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
                 return -1;
             }
             arg->pool = pool;
-            arg->worker_index = pool->thread_count + i;
+            arg->worker_index = index;
             arg->should_exit = false;  // Initialize exit flag
             arg->is_active = false;    // Initialize active flag
+            arg->exited = false;
+
+            if (old_arg) {
+                // The previous worker of this slot has left its loop, release it before reusing the slot
+                mcp_thread_join(pool->threads[index], NULL);
+                free(old_arg);
+            }
 
             // Store the worker argument for cleanup
             pool->worker_args[arg->worker_index] = arg;
 
             if (mcp_thread_create(&(pool->threads[arg->worker_index]), thread_pool_worker, arg) != 0) {
                 mcp_log_error("Failed to create worker thread");
+                pool->worker_args[index] = NULL;
                 free(arg);
-                pool->worker_args[arg->worker_index] = NULL;
                 pool->thread_count += i; // Update to actual number of threads
                 mcp_rwlock_write_unlock(pool->rwlock);
                 return -1;
@@ -316,6 +323,12 @@ int mcp_thread_pool_resize(mcp_thread_pool_t* pool, size_t new_thread_count) {
     }
 
     mcp_rwlock_write_unlock(pool->rwlock);
+
+    // Wake all threads to check their exit flags. Workers take the rwlock while they hold
+    // cond_mutex, so this must not be done under the rwlock.
+    mcp_mutex_lock(pool->cond_mutex);
+    mcp_cond_broadcast(pool->notify);
+    mcp_mutex_unlock(pool->cond_mutex);
     return 0;
 }
 
@@ -373,7 +386,11 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
     }
 
     // Join threads with timeout and retry mechanism
-    for (size_t i = 0; i < pool->started; ++i) {
+    for (size_t i = 0; i < pool->max_thread_count; ++i) {
+        if (!pool->worker_args[i]) {
+            continue; // No thread was started for this slot
+        }
+
         int join_attempts = 0;
         const int max_join_attempts = 3;
         bool join_success = false;
@@ -381,6 +398,7 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
         while (join_attempts < max_join_attempts && !join_success) {
             if (mcp_thread_join(pool->threads[i], NULL) == 0) {
                 join_success = true;
+                free(pool->worker_args[i]);
             } else {
                 mcp_log_warn("Warning: Failed to join thread %zu (attempt %d of %d)",
                             i, join_attempts + 1, max_join_attempts);
@@ -398,7 +416,6 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
             // The thread might still be running, but we need to clean up resources
         }
 
-        // Note: Worker threads free their own arguments when they exit normally
         // If join failed, we might leak the worker_arg, but that's better than
         // potentially freeing memory that's still in use by a running thread
     }
@@ -433,6 +450,7 @@ int mcp_thread_pool_destroy(mcp_thread_pool_t* pool) {
                   free(pool->deques[i].buffer);
 #endif
               }
+              mcp_mutex_destroy(pool->deques[i].lock);
          }
          free(pool->deques);
     }
diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 922ab2a..4e92f40 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -2,115 +2,65 @@
  * @file mcp_thread_pool_deque.c
  * @brief Work-stealing deque implementation for thread pool.
  *
- * This file implements lock-free work-stealing deques based on the Chase-Lev algorithm.
- * Each worker thread has its own deque where it can push/pop tasks from the bottom,
- * while other threads can steal tasks from the top.
+ * Each worker thread has its own deque. Submitting threads push tasks to the bottom,
+ * the worker pops from the bottom and other workers steal from the top. Since tasks are
+ * pushed by arbitrary threads, all of these take the deque's lock.
  */
 #include "internal/mcp_thread_pool_internal.h"
 
-// Push task onto the bottom of the deque (owner thread only)
+// Push task onto the bottom of the deque (any thread), false if it is full
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
+    mcp_mutex_lock(deque->lock);
+
     size_t b = load_size(&deque->bottom);
-    // Do not need to load top for push, only check against capacity later if needed
-    // size_t t = load_size(&deque->top);
-    // size_t size = b - t;
-    // if (size >= (deque->capacity_mask + 1)) { return false; } // Check happens implicitly below
+    size_t t = load_size(&deque->top);
+    if (b - t > deque->capacity_mask) {
+        mcp_mutex_unlock(deque->lock);
+        return false;
+    }
 
     size_t index = b & deque->capacity_mask;
     deque->buffer[index] = task;
+    fetch_add_size(&deque->bottom, 1);
 
-    // Ensure buffer write is visible before bottom increment (memory barrier)
-#ifdef _WIN32
-    MemoryBarrier();
-#else
-    __sync_synchronize();
-#endif
-
-    // Increment bottom (owner only, volatile write is sufficient)
-    deque->bottom = b + 1;
+    mcp_mutex_unlock(deque->lock);
     return true;
 }
 
 // Pop task from the bottom of the deque (owner thread only)
 bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
-    size_t b = load_size(&deque->bottom);
-    if (b == 0) return false;
-    b = b - 1;
-    // Volatile write
-    deque->bottom = b;
-
-    // Ensure bottom write is visible before reading top (memory barrier)
-#ifdef _WIN32
-    MemoryBarrier();
-#else
-    __sync_synchronize();
-#endif
+    mcp_mutex_lock(deque->lock);
 
+    size_t b = load_size(&deque->bottom);
     size_t t = load_size(&deque->top);
-    // Use signed difference
-    long size = (long)b - (long)t;
-
-    if (size < 0) {
-        // Deque was empty or became empty due to concurrent steal
-        // Reset bottom to match top
-        deque->bottom = t;
+    if (b == t) {
+        mcp_mutex_unlock(deque->lock);
         return false;
     }
 
-    // Get task from bottom
-    size_t index = b & deque->capacity_mask;
+    size_t index = (b - 1) & deque->capacity_mask;
     *task = deque->buffer[index];
+    fetch_add_size(&deque->bottom, (size_t)-1);
 
-    if (size == 0) {
-        // Last item case: Race with thieves stealing top
-        if (!compare_and_swap_size(&deque->top, t, t + 1)) {
-            // Thief stole the item first
-            deque->bottom = t + 1; // Acknowledge thief won
-            return false; // Failed to pop
-        }
-        // Successfully took the last item
-        deque->bottom = t + 1; // Reset bottom
-    }
-    // If size > 0, we successfully popped without contention on the last item
-
+    mcp_mutex_unlock(deque->lock);
     return true;
 }
 
 // Steal task from the top of the deque (thief threads only)
 bool deque_steal_top(work_stealing_deque_t* deque, mcp_task_t* task) {
-    size_t t = load_size(&deque->top);
-
-    // Ensure top read happens before reading bottom (memory barrier)
-#ifdef _WIN32
-    MemoryBarrier();
-#else
-    __sync_synchronize();
-#endif
+    mcp_mutex_lock(deque->lock);
 
+    size_t t = load_size(&deque->top);
     size_t b = load_size(&deque->bottom);
-
-    if ((long)t >= (long)b) { // Use signed comparison
-        // Deque appears empty
+    if (t == b) {
+        mcp_mutex_unlock(deque->lock);
         return false;
     }
 
-    // Get task from top
     size_t index = t & deque->capacity_mask;
-    *task = deque->buffer[index]; // Read task data first
-
-    // Ensure task read happens before CAS (memory barrier)
-#ifdef _WIN32
-    MemoryBarrier();
-#else
-    __sync_synchronize();
-#endif
+    *task = deque->buffer[index];
+    fetch_add_size(&deque->top, 1);
 
-    // Attempt to increment top using CAS
-    if (compare_and_swap_size(&deque->top, t, t + 1)) {
-        // Successfully stole the item
-        return true;
-    } else {
-        // Another thief or the owner modified top/bottom concurrently
-        return false;
-    }
+    mcp_mutex_unlock(deque->lock);
+    return true;
 }
diff --git a/src/common/mcp_thread_pool_stats.c b/src/common/mcp_thread_pool_stats.c
index 2b1f6f0..6f3de11 100644
--- a/src/common/mcp_thread_pool_stats.c
+++ b/src/common/mcp_thread_pool_stats.c
@@ -53,7 +53,7 @@ int mcp_thread_pool_smart_adjust(mcp_thread_pool_t* pool, void* context) {
     mcp_rwlock_read_lock(pool->rwlock);
     size_t total_queued_tasks = 0;
     size_t total_queue_capacity = 0;
-    size_t thread_count_local = pool->thread_count;
+    size_t thread_count_local = pool->max_thread_count;
 
     // Sum up tasks in all deques
     for (size_t i = 0; i < thread_count_local; i++) {
@@ -166,10 +166,10 @@ int mcp_thread_pool_get_stats(mcp_thread_pool_t* pool, size_t* submitted, size_t
     // Use read lock to ensure consistent state
     mcp_rwlock_read_lock(pool->rwlock);
 
-    if (submitted) *submitted = pool->tasks_submitted;
-    if (completed) *completed = pool->tasks_completed;
-    if (failed) *failed = pool->tasks_failed;
-    if (active) *active = pool->active_tasks;
+    if (submitted) *submitted = load_size(&pool->tasks_submitted);
+    if (completed) *completed = load_size(&pool->tasks_completed);
+    if (failed) *failed = load_size(&pool->tasks_failed);
+    if (active) *active = load_size(&pool->active_tasks);
 
     mcp_rwlock_read_unlock(pool->rwlock);
 
diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 2ae9652..b3d3ee2 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -16,16 +16,19 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
     }
     PROFILE_START("mcp_thread_pool_add_task");
 
-    // Use read lock to check shutdown state - allows multiple threads to check concurrently
+    // Use read lock to check shutdown state - allows multiple threads to check concurrently.
+    // It is held until the task is queued, so that a graceful shutdown sees every accepted task.
     mcp_rwlock_read_lock(pool->rwlock);
-    int shutdown_state = pool->shutdown_flag;
-    mcp_rwlock_read_unlock(pool->rwlock);
 
-    if (shutdown_state != 0) {
+    if (pool->shutdown_flag != 0) {
+        mcp_rwlock_read_unlock(pool->rwlock);
         PROFILE_END("mcp_thread_pool_add_task");
         return -1;
     }
 
+    // Count the task before it can run, so that completed never exceeds submitted
+    fetch_add_size(&pool->tasks_submitted, 1);
+
     mcp_task_t task = { .function = function, .argument = argument };
 
     // Thread-safe round-robin submission using atomic fetch-and-add
@@ -53,14 +56,15 @@ int mcp_thread_pool_add_task(mcp_thread_pool_t* pool, void (*function)(void*), v
         if (!submission_success) {
             // All deques are full
             mcp_log_error("All deques are full during task submission. Consider increasing queue size.");
+            fetch_add_size(&pool->tasks_submitted, (size_t)-1);
             fetch_add_size(&pool->tasks_failed, 1);
+            mcp_rwlock_read_unlock(pool->rwlock);
             PROFILE_END("mcp_thread_pool_add_task");
             return -1; // Indicate queue full
         }
     }
 
-    // Update statistics
-    fetch_add_size(&pool->tasks_submitted, 1);
+    mcp_rwlock_read_unlock(pool->rwlock);
 
     // Signal a potentially idle worker
     if (mcp_mutex_lock(pool->cond_mutex) == 0) {
@@ -97,49 +101,24 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return -1; // Pool is shutting down
     }
 
-    // Capture the current number of submitted tasks
-    size_t tasks_to_wait_for = pool->tasks_submitted;
-
-    // If no tasks have been submitted, return immediately
-    if (tasks_to_wait_for == 0) {
-        return 0;
-    }
-
-    // Calculate the number of tasks that should be completed
-    size_t target_completed = tasks_to_wait_for - pool->tasks_failed;
-
-    // If all tasks have already completed, return immediately
-    if (pool->tasks_completed >= target_completed) {
-        return 0;
-    }
-
-    // Wait for tasks to complete using condition variable
+    // Wait until no submitted task is left to complete
     if (mcp_mutex_lock(pool->cond_mutex) != 0) {
         return -1; // Failed to lock mutex
     }
 
-    unsigned int wait_time = 0;
+    uint64_t start_time = mcp_get_time_ms();
     unsigned int sleep_interval = 10; // 10ms sleep interval
     int result = 0;
 
-    while ((pool->tasks_completed < target_completed) &&
-           (wait_time < timeout_ms || timeout_ms == 0)) {
-
-        // Check if all deques are empty and no tasks are active
-        bool all_empty = true;
-        for (size_t i = 0; i < pool->max_thread_count; i++) {
-            size_t bottom = load_size(&pool->deques[i].bottom);
-            size_t top = load_size(&pool->deques[i].top);
-
-            if (bottom > top) {
-                all_empty = false;
-                break;
-            }
+    while (1) {
+        // completed never exceeds submitted, so equal values mean that nothing is queued or running
+        size_t completed = load_size(&pool->tasks_completed);
+        if (load_size(&pool->tasks_submitted) == completed) {
+            break;
         }
 
-        // If all deques are empty and no tasks are active, we're done
-        if (all_empty && pool->active_tasks == 0) {
-            result = 0;
+        if (timeout_ms > 0 && mcp_get_time_ms() - start_time >= timeout_ms) {
+            result = -1; // Timeout
             break;
         }
 
@@ -151,16 +130,9 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
             result = -1;
             break;
         }
-
-        wait_time += sleep_interval;
     }
 
     mcp_mutex_unlock(pool->cond_mutex);
 
-    // If we timed out and tasks are still not complete
-    if (wait_time >= timeout_ms && timeout_ms > 0 && pool->tasks_completed < target_completed) {
-        return -1; // Timeout
-    }
-
     return result;
 }
diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 832fb27..d569978 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -47,38 +47,33 @@ void* thread_pool_worker(void* arg) {
     worker_locals.my_index = worker_locals.worker_data->worker_index;
     worker_locals.my_deque = &worker_locals.pool->deques[worker_locals.my_index];
     worker_locals.steal_attempts = 0;
-    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->thread_count;
+    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->max_thread_count;
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
-    // Mark this worker as the owner of its argument
-    worker_locals.pool->worker_args[worker_locals.my_index] = worker_locals.worker_data;
-
     while (1) {
-        // Check if this thread should exit - use explicit exit flag first, then fallback to index check
-        bool should_exit_explicit = worker_locals.worker_data->should_exit;
-        bool should_exit_index = false;
-
-        // Only check index-based exit if explicit flag is not set (for backward compatibility)
-        if (!should_exit_explicit) {
-            mcp_rwlock_read_lock(worker_locals.pool->rwlock);
-            should_exit_index = (worker_locals.my_index >= worker_locals.pool->thread_count);
-            mcp_rwlock_read_unlock(worker_locals.pool->rwlock);
+        // Check if this thread should exit
+        mcp_rwlock_read_lock(worker_locals.pool->rwlock);
+        bool should_exit = worker_locals.worker_data->should_exit;
+        mcp_rwlock_read_unlock(worker_locals.pool->rwlock);
+
+        if (should_exit) {
+            // A resize may have taken the request back in the meantime
+            mcp_rwlock_write_lock(worker_locals.pool->rwlock);
+            should_exit = worker_locals.worker_data->should_exit;
+            worker_locals.worker_data->exited = should_exit;
+            mcp_rwlock_write_unlock(worker_locals.pool->rwlock);
         }
 
-        if (should_exit_explicit || should_exit_index) {
+        if (should_exit) {
             // Mark worker as inactive before exiting
             worker_locals.pool->worker_status[worker_locals.my_index] = 0;
             worker_locals.worker_data->is_active = false;
 
-            if (should_exit_explicit) {
-                mcp_log_debug("Worker %zu exiting due to explicit exit signal", worker_locals.my_index);
-            } else {
-                mcp_log_debug("Worker %zu exiting due to pool shrink (index >= thread_count)", worker_locals.my_index);
-            }
-            break;  // Let the function's cleanup code handle the rest
+            mcp_log_debug("Worker %zu exiting due to explicit exit signal", worker_locals.my_index);
+            break;
         }
-        
+
         // 1. Try to pop from own deque
         if (deque_pop_bottom(worker_locals.my_deque, &worker_locals.task)) {
             worker_locals.steal_attempts = 0;
@@ -128,7 +123,7 @@ void* thread_pool_worker(void* arg) {
             bool all_empty = true;
 
             // Check all deques
-            for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+            for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                 size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                 size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -147,7 +142,7 @@ void* thread_pool_worker(void* arg) {
         }
 
         // 3. Try to steal using an optimized strategy
-        if (worker_locals.pool->thread_count > 1) {
+        if (worker_locals.pool->max_thread_count > 1) {
             size_t victim_index = worker_locals.my_index; // Default to own index (will be changed)
 
             // Increment scan interval counter
@@ -160,7 +155,7 @@ void* thread_pool_worker(void* arg) {
                 size_t max_tasks = 0;
 
                 // Full scan of all deques
-                for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                     if (i == worker_locals.my_index) continue; // Skip own deque
 
                     size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
@@ -187,7 +182,7 @@ void* thread_pool_worker(void* arg) {
                 if (bottom <= top) {
                     // Try a random victim, but not ourselves
                     do {
-                        victim_index = rand() % worker_locals.pool->thread_count;
+                        victim_index = rand() % worker_locals.pool->max_thread_count;
                     } while (victim_index == worker_locals.my_index);
                 } else {
                     // Last victim still has tasks
@@ -272,7 +267,7 @@ void* thread_pool_worker(void* arg) {
                     bool all_empty = true;
 
                     // Check all deques
-                    for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -297,7 +292,7 @@ void* thread_pool_worker(void* arg) {
                 // If we timed out, check if there are tasks in any deque
                 if (wait_result == -2) { // -2 is timeout
                     bool found_tasks = false;
-                    for (size_t i = 0; i < worker_locals.pool->thread_count && !found_tasks; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count && !found_tasks; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
                         if (bottom > top) {
@@ -329,9 +324,7 @@ void* thread_pool_worker(void* arg) {
         }
     } // End while(1)
 
-    // Clean up worker argument
-    free(worker_locals.worker_data);
-    worker_locals.pool->worker_args[worker_locals.my_index] = NULL;
+    // The worker argument is freed by the pool after this thread has been joined
 
     return NULL;
 }
-- 
2.43.0


From bc77ed2a17a44062b4eed744f834f329abc09f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:40 +0000
Subject: [PATCH 007/120] fix: save MQTT sessions atomically and keep clients
 apart

A crash or full disk during a save destroyed the previous session, because the
file was rewritten in place. The file name lost its last character, and invalid
characters were all mapped to '_', so different clients shared a file. Empty
payloads made saving fail. A file cut after its subscriptions was accepted.
Restored lists came back in reverse order. Updating the access time could undo a
concurrent save, and cleanup removed sessions it could not open.
---
 src/transport/mqtt_session_persistence.c | 326 +++++++++++++----------
 1 file changed, 186 insertions(+), 140 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index a30b373..ba451ea 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -29,8 +29,9 @@
 #define MQTT_SESSION_MAGIC 0x4D435053  // "MCPS"
 
 // Internal helper functions that assume lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id);
+static bool mqtt_session_file_is_expired(const char* filename);
 static int mqtt_session_delete_internal(const char* client_id);
+static int mqtt_session_delete_file(const char* filename);
 
 static char* g_storage_path = NULL;
 static mcp_mutex_t* g_session_mutex = NULL;
@@ -46,7 +47,11 @@ static volatile bool g_persistence_shutting_down = false;
  * @return 0 on success, -1 on failure
  */
 static int safe_fwrite(const void* ptr, size_t size, size_t count, FILE* stream) {
-    if (!ptr || !stream || size == 0 || count == 0) {
+    if (count == 0) {
+        return 0; // Nothing to write, e.g. an empty payload
+    }
+
+    if (!ptr || !stream || size == 0) {
         mcp_log_error("Invalid parameters for file write operation");
         return -1;
     }
@@ -123,81 +128,58 @@ static char* get_session_path(const char* client_id) {
         return NULL;
     }
 
-    // Create a safe filename from client_id
-    char* safe_id = mcp_strdup(client_id);
-    if (!safe_id) {
-        return NULL;
-    }
-
-    // Replace invalid filename characters
-    for (char* p = safe_id; *p; ++p) {
-        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || 
-            *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|') {
-            *p = '_';
-        }
-    }
-
-    // Allocate path buffer
-    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 6; // +6 for "/.mcp_"
+    // Create a safe filename from client_id: characters that are invalid in filenames are
+    // written as %XX, so that different clients never share a file
+    size_t path_len = strlen(g_storage_path) + 3 * strlen(client_id) + sizeof("/.mcp_");
     char* path = (char*)malloc(path_len);
     if (!path) {
-        free(safe_id);
         return NULL;
     }
 
-    snprintf(path, path_len, "%s/.mcp_%s", g_storage_path, safe_id);
-    free(safe_id);
+    size_t pos = (size_t)snprintf(path, path_len, "%s/.mcp_", g_storage_path);
+    for (const char* p = client_id; *p; ++p) {
+        if (strchr("\\/:*?\"<>|%", *p)) {
+            pos += (size_t)snprintf(path + pos, path_len - pos, "%%%02X", (unsigned char)*p);
+        } else {
+            path[pos++] = *p;
+        }
+    }
+    path[pos] = '\0';
     return path;
 }
 
-int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
-    if (!client_id || !session) {
-        return -1;
-    }
-
-    // Check if persistence system is ready
-    if (!is_persistence_ready()) {
-        return -1;
-    }
-
-    // Acquire lock for thread-safe file operations
-    mcp_mutex_lock(g_session_mutex);
-
-    // Double-check after acquiring lock
-    if (!is_persistence_ready()) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
-    if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
+// Writes everything buffered in fp to the disk and closes it
+static int flush_and_close(FILE* fp) {
+    int result = fflush(fp) == 0 ? 0 : -1;
+#ifdef _WIN32
+    if (result == 0 && _commit(_fileno(fp)) != 0) result = -1;
+#else
+    if (result == 0 && fsync(fileno(fp)) != 0) result = -1;
+#endif
+    if (fclose(fp) != 0) result = -1;
+    return result;
+}
 
-    FILE* fp = fopen(path, "wb");
-    if (!fp) {
-        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", path, errno);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
-        return -1;
-    }
+// Atomically replaces the file 'to' by 'from'
+static int replace_file(const char* from, const char* to) {
+#ifdef _WIN32
+    return MoveFileExA(from, to, MOVEFILE_REPLACE_EXISTING | MOVEFILE_WRITE_THROUGH) ? 0 : -1;
+#else
+    return rename(from, to);
+#endif
+}
 
+// Writes the session to an open file
+static int write_session(FILE* fp, const char* client_id, const mqtt_session_data_t* session) {
     // Write session data
     uint32_t magic = MQTT_SESSION_MAGIC;
     if (safe_fwrite(&magic, sizeof(magic), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Write file format version
     uint16_t version = MQTT_SESSION_FILE_VERSION;
     if (safe_fwrite(&version, sizeof(version), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -206,19 +188,16 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     if (safe_fwrite(&session->session_created_time, sizeof(session->session_created_time), 1, fp) != 0 ||
         safe_fwrite(&current_time, sizeof(current_time), 1, fp) != 0 ||
         safe_fwrite(&session->session_expiry_interval, sizeof(session->session_expiry_interval), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Write client ID length and data
+    if (strlen(client_id) > UINT16_MAX) {
+        return -1;
+    }
     uint16_t client_id_len = (uint16_t)strlen(client_id);
     if (safe_fwrite(&client_id_len, sizeof(client_id_len), 1, fp) != 0 ||
         safe_fwrite(client_id, 1, client_id_len, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -226,26 +205,26 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     uint16_t sub_count = 0;
     struct mqtt_subscription* sub = session->subscriptions;
     while (sub) {
+        if (sub_count == UINT16_MAX) {
+            return -1;
+        }
         sub_count++;
         sub = sub->next;
     }
     if (safe_fwrite(&sub_count, sizeof(sub_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Write subscriptions
     sub = session->subscriptions;
     while (sub) {
+        if (strlen(sub->topic) > UINT16_MAX) {
+            return -1;
+        }
         uint16_t topic_len = (uint16_t)strlen(sub->topic);
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(sub->topic, 1, topic_len, fp) != 0 ||
             safe_fwrite(&sub->qos, sizeof(sub->qos), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
         sub = sub->next;
@@ -253,9 +232,6 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
 
     // Write last packet ID
     if (safe_fwrite(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -263,13 +239,13 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     uint16_t inflight_count = 0;
     struct mqtt_inflight_message* inflight = session->inflight_messages;
     while (inflight) {
+        if (inflight_count == UINT16_MAX) {
+            return -1;
+        }
         inflight_count++;
         inflight = inflight->next;
     }
     if (safe_fwrite(&inflight_count, sizeof(inflight_count), 1, fp) != 0) {
-        fclose(fp);
-        free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -277,27 +253,21 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
     inflight = session->inflight_messages;
     while (inflight) {
         if (safe_fwrite(&inflight->packet_id, sizeof(inflight->packet_id), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
+        if (strlen(inflight->topic) > UINT16_MAX || inflight->payload_len > UINT32_MAX) {
+            return -1;
+        }
         uint16_t topic_len = (uint16_t)strlen(inflight->topic);
         if (safe_fwrite(&topic_len, sizeof(topic_len), 1, fp) != 0 ||
             safe_fwrite(inflight->topic, 1, topic_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         uint32_t payload_len = (uint32_t)inflight->payload_len;
         if (safe_fwrite(&payload_len, sizeof(payload_len), 1, fp) != 0 ||
             safe_fwrite(inflight->payload, 1, inflight->payload_len, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
@@ -305,22 +275,58 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
             safe_fwrite(&inflight->retain, sizeof(inflight->retain), 1, fp) != 0 ||
             safe_fwrite(&inflight->send_time, sizeof(inflight->send_time), 1, fp) != 0 ||
             safe_fwrite(&inflight->retry_count, sizeof(inflight->retry_count), 1, fp) != 0) {
-            fclose(fp);
-            free(path);
-            mcp_mutex_unlock(g_session_mutex);
             return -1;
         }
 
         inflight = inflight->next;
     }
 
-    fclose(fp);
-    free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 }
 
-int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+// Internal helper function - assumes lock is already held
+static int mqtt_session_save_internal(const char* client_id, const mqtt_session_data_t* session) {
+    char* path = get_session_path(client_id);
+    if (!path) {
+        return -1;
+    }
+
+    // The session is written to a temporary file which then replaces the old one, so that a
+    // crash or a full disk leaves either the old or the new session
+    size_t tmp_len = strlen(g_storage_path) + sizeof("/.mcptmp");
+    char* tmp_path = (char*)malloc(tmp_len);
+    if (!tmp_path) {
+        free(path);
+        return -1;
+    }
+    snprintf(tmp_path, tmp_len, "%s/.mcptmp", g_storage_path);
+
+    FILE* fp = fopen(tmp_path, "wb");
+    if (!fp) {
+        mcp_log_error("Failed to open session file for writing: %s (errno: %d)", tmp_path, errno);
+        free(tmp_path);
+        free(path);
+        return -1;
+    }
+
+    int result = write_session(fp, client_id, session);
+    if (flush_and_close(fp) != 0) {
+        result = -1;
+    }
+    if (result == 0 && replace_file(tmp_path, path) != 0) {
+        mcp_log_error("Failed to replace session file: %s (errno: %d)", path, errno);
+        result = -1;
+    }
+    if (result != 0) {
+        remove(tmp_path);
+    }
+
+    free(tmp_path);
+    free(path);
+    return result;
+}
+
+int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
     }
@@ -339,9 +345,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         return -1;
     }
 
+    int result = mqtt_session_save_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
+// Internal helper function - assumes lock is already held
+static int mqtt_session_load_internal(const char* client_id, mqtt_session_data_t* session) {
     char* path = get_session_path(client_id);
     if (!path) {
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -349,7 +361,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!fp) {
         mcp_log_warn("Failed to open session file for reading: %s (errno: %d)", path, errno);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -359,7 +370,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Invalid session file magic number for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -369,7 +379,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session file version for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -377,7 +386,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Unsupported session file version %u for client: %s", version, client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -388,7 +396,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         mcp_log_warn("Failed to read session metadata for client: %s", client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -401,9 +408,8 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
             fclose(fp);
             free(path);
-            mcp_mutex_unlock(g_session_mutex);
             // Delete expired session file
-            mqtt_session_delete(client_id);
+            mqtt_session_delete_internal(client_id);
             return -1;
         }
     }
@@ -413,7 +419,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&client_id_len, sizeof(client_id_len), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -421,7 +426,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (!loaded_client_id) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -429,7 +433,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     loaded_client_id[client_id_len] = '\0';
@@ -439,7 +442,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
         free(loaded_client_id);
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
     free(loaded_client_id);
@@ -449,11 +451,11 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     if (fread(&sub_count, sizeof(sub_count), 1, fp) != 1) {
         fclose(fp);
         free(path);
-        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
     // Read subscriptions
+    struct mqtt_subscription** sub_tail = &session->subscriptions;
     for (uint16_t i = 0; i < sub_count; i++) {
         uint16_t topic_len;
         if (fread(&topic_len, sizeof(topic_len), 1, fp) != 1) {
@@ -491,21 +493,26 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
         sub->topic = topic;
         sub->qos = qos;
-        sub->next = session->subscriptions;
-        session->subscriptions = sub;
+        sub->active = true;
+        sub->next = NULL;
+        *sub_tail = sub;
+        sub_tail = &sub->next;
     }
 
     // Read last packet ID
     if (fread(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 1) {
         mcp_log_warn("Failed to read last packet ID for client: %s", client_id);
-        // Continue anyway, this is not critical
-        session->last_packet_id = 1;
+        goto cleanup_and_exit;
     }
 
     // Read in-flight message count
     uint16_t inflight_count = 0;
-    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
+    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) != 1) {
+        mcp_log_warn("Failed to read in-flight message count for client: %s", client_id);
+        goto cleanup_and_exit;
+    } else {
         // Read in-flight messages
+        struct mqtt_inflight_message** inflight_tail = &session->inflight_messages;
         for (uint16_t i = 0; i < inflight_count; i++) {
             struct mqtt_inflight_message* inflight = malloc(sizeof(struct mqtt_inflight_message));
             if (!inflight) {
@@ -552,7 +559,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
-            inflight->payload = malloc(payload_len);
+            inflight->payload = malloc(payload_len ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
                 free(inflight);
@@ -582,8 +589,9 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             }
 
             // Add to list
-            inflight->next = session->inflight_messages;
-            session->inflight_messages = inflight;
+            inflight->next = NULL;
+            *inflight_tail = inflight;
+            inflight_tail = &inflight->next;
         }
     }
 
@@ -592,7 +600,6 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return 0;
 
 cleanup_and_exit:
@@ -618,10 +625,33 @@ cleanup_and_exit:
 
     fclose(fp);
     free(path);
-    mcp_mutex_unlock(g_session_mutex);
     return -1;
 }
 
+int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
+    if (!client_id || !session) {
+        return -1;
+    }
+
+    // Check if persistence system is ready
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Acquire lock for thread-safe file operations
+    mcp_mutex_lock(g_session_mutex);
+
+    // Double-check after acquiring lock
+    if (!is_persistence_ready()) {
+        mcp_mutex_unlock(g_session_mutex);
+        return -1;
+    }
+
+    int result = mqtt_session_load_internal(client_id, session);
+    mcp_mutex_unlock(g_session_mutex);
+    return result;
+}
+
 int mqtt_session_delete(const char* client_id) {
     if (!client_id) {
         return -1;
@@ -792,7 +822,15 @@ int mqtt_session_update_access_time(const char* client_id) {
 
     // Load session data
     mqtt_session_data_t session_data = {0};
-    if (mqtt_session_load(client_id, &session_data) != 0) {
+    if (!is_persistence_ready()) {
+        return -1;
+    }
+
+    // Load and save under one lock, so that no save in between is undone
+    mcp_mutex_lock(g_session_mutex);
+
+    if (!is_persistence_ready() || mqtt_session_load_internal(client_id, &session_data) != 0) {
+        mcp_mutex_unlock(g_session_mutex);
         return -1;
     }
 
@@ -800,7 +838,8 @@ int mqtt_session_update_access_time(const char* client_id) {
     session_data.session_last_access_time = mcp_get_time_ms();
 
     // Save session data
-    int result = mqtt_session_save(client_id, &session_data);
+    int result = mqtt_session_save_internal(client_id, &session_data);
+    mcp_mutex_unlock(g_session_mutex);
 
     // Cleanup loaded data
     struct mqtt_subscription* sub = session_data.subscriptions;
@@ -854,12 +893,10 @@ int mqtt_session_cleanup_expired(void) {
                 // Extract client ID from filename
                 const char* filename = find_data.cFileName;
                 if (strncmp(filename, ".mcp_", 5) == 0) {
-                    const char* client_id = filename + 5;
-
-                    if (mqtt_session_is_expired_internal(client_id)) {
-                        if (mqtt_session_delete_internal(client_id) == 0) {
+                    if (mqtt_session_file_is_expired(filename)) {
+                        if (mqtt_session_delete_file(filename) == 0) {
                             cleaned_count++;
-                            mcp_log_info("Cleaned expired session for client: %s", client_id);
+                            mcp_log_info("Cleaned expired session file: %s", filename);
                         }
                     }
                 }
@@ -875,12 +912,10 @@ int mqtt_session_cleanup_expired(void) {
         struct dirent* entry;
         while ((entry = readdir(dir)) != NULL) {
             if (strncmp(entry->d_name, ".mcp_", 5) == 0) {
-                const char* client_id = entry->d_name + 5;
-
-                if (mqtt_session_is_expired_internal(client_id)) {
-                    if (mqtt_session_delete_internal(client_id) == 0) {
+                if (mqtt_session_file_is_expired(entry->d_name)) {
+                    if (mqtt_session_delete_file(entry->d_name) == 0) {
                         cleaned_count++;
-                        mcp_log_info("Cleaned expired session for client: %s", client_id);
+                        mcp_log_info("Cleaned expired session file: %s", entry->d_name);
                     }
                 }
             }
@@ -928,24 +963,30 @@ void mqtt_session_persistence_cleanup(void) {
     g_persistence_shutting_down = false;
 }
 
-// Internal helper function - assumes lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id) {
-    if (!client_id) {
-        return true;
+// Full path of a file in the storage directory
+static char* get_file_path(const char* filename) {
+    size_t path_len = strlen(g_storage_path) + strlen(filename) + 2;
+    char* path = (char*)malloc(path_len);
+    if (path) {
+        snprintf(path, path_len, "%s/%s", g_storage_path, filename);
     }
+    return path;
+}
 
+// Internal helper function - assumes lock is already held
+static bool mqtt_session_file_is_expired(const char* filename) {
     uint64_t created_time, last_access_time;
     uint32_t expiry_interval;
 
-    char* path = get_session_path(client_id);
+    char* path = get_file_path(filename);
     if (!path) {
-        return true;
+        return false;
     }
 
     FILE* fp = fopen(path, "rb");
     if (!fp) {
         free(path);
-        return true;
+        return false; // Cannot tell, so keep it
     }
 
     // Read magic number
@@ -986,12 +1027,7 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
 }
 
 // Internal helper function - assumes lock is already held
-static int mqtt_session_delete_internal(const char* client_id) {
-    if (!client_id) {
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
+static int mqtt_session_delete_path(char* path) {
     if (!path) {
         return -1;
     }
@@ -1010,3 +1046,13 @@ static int mqtt_session_delete_internal(const char* client_id) {
     free(path);
     return result;
 }
+
+// Internal helper function - assumes lock is already held
+static int mqtt_session_delete_internal(const char* client_id) {
+    return mqtt_session_delete_path(get_session_path(client_id));
+}
+
+// Internal helper function - assumes lock is already held
+static int mqtt_session_delete_file(const char* filename) {
+    return mqtt_session_delete_path(get_file_path(filename));
+}
-- 
2.43.0


From a93b31b3f210f0f8a77cd36e934fa13b892c1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:38 +0000
Subject: [PATCH 008/120] fix: check advanced rate limits under the write lock

A check creates client entries and updates counters, so the read lock let
concurrent checks corrupt the table and admit too many requests. An entry is
brought in line with the rule that decides now, and patterns with a star on
both ends are tried before prefix patterns.
---
 src/server/mcp_advanced_rate_limiter.c | 126 ++++++++++++++++++-------
 1 file changed, 91 insertions(+), 35 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 1d5de61..cc20ae7 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -144,6 +144,7 @@ static bool check_token_bucket(client_entry_t* entry, const mcp_rate_limit_rule_
 static bool check_leaky_bucket(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
 static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule);
 static void cleanup_algorithm_data(client_entry_t* entry);
+static bool sync_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time);
 static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter_t* limiter,
                                                      mcp_rate_limit_key_type_t key_type,
                                                      const char* key);
@@ -268,6 +269,59 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
     return true;
 }
 
+/**
+ * @brief Brings an entry in line with the rule that now applies to its key
+ *
+ * Rules can be added and removed while clients are tracked, so the data of an entry
+ * may belong to another algorithm or limit than the rule about to be checked.
+ */
+static bool sync_algorithm_data(client_entry_t* entry, const mcp_rate_limit_rule_t* rule, time_t current_time) {
+    if (entry->algorithm != rule->algorithm) {
+        cleanup_algorithm_data(entry);
+        memset(&entry->data, 0, sizeof(entry->data));
+        return initialize_algorithm_data(entry, rule);
+    }
+
+    switch (rule->algorithm) {
+        case MCP_RATE_LIMIT_SLIDING_WINDOW: {
+            sliding_window_data_t* data = &entry->data.sliding_window;
+            if (!data->request_times || data->buffer_size != rule->max_requests_per_window) {
+                // Keep the newest requests, oldest first
+                sliding_window_data_t old = *data;
+                if (!initialize_algorithm_data(entry, rule)) {
+                    *data = old;
+                    return false;
+                }
+                size_t skip = old.buffer_size > data->buffer_size ? old.buffer_size - data->buffer_size : 0;
+                for (size_t i = skip; old.request_times && i < old.buffer_size; i++) {
+                    data->request_times[i - skip] = old.request_times[(old.buffer_pos + i) % old.buffer_size];
+                }
+                if (data->buffer_size > 0) {
+                    data->buffer_pos = (old.buffer_size - skip) % data->buffer_size;
+                }
+                data->last_request_time = current_time;
+                free(old.request_times);
+            }
+            break;
+        }
+
+        case MCP_RATE_LIMIT_TOKEN_BUCKET:
+            entry->data.token_bucket.tokens_per_second = rule->tokens_per_second;
+            entry->data.token_bucket.max_tokens = rule->max_tokens;
+            entry->data.token_bucket.tokens = fmin(entry->data.token_bucket.tokens, (double)rule->max_tokens);
+            break;
+
+        case MCP_RATE_LIMIT_LEAKY_BUCKET:
+            entry->data.leaky_bucket.leak_rate_per_second = rule->leak_rate_per_second;
+            entry->data.leaky_bucket.burst_capacity = rule->burst_capacity;
+            break;
+
+        case MCP_RATE_LIMIT_FIXED_WINDOW:
+            break;
+    }
+    return true;
+}
+
 /**
  * @internal
  * @brief Checks if a key matches a pattern.
@@ -289,21 +343,6 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
     size_t pattern_len = strlen(pattern);
     size_t key_len = strlen(key);
 
-    // Check for prefix match: pattern ends with *
-    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
-        // Compare all characters except the trailing *
-        return strncmp(key, pattern, pattern_len - 1) == 0;
-    }
-
-    // Check for suffix match: pattern starts with *
-    if (pattern_len > 1 && pattern[0] == '*') {
-        // Compare the suffix
-        size_t suffix_len = pattern_len - 1;
-        if (key_len >= suffix_len) {
-            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
-        }
-    }
-
     // Check for contains match: pattern starts and ends with *
     if (pattern_len > 2 && pattern[0] == '*' && pattern[pattern_len - 1] == '*') {
         // Extract the substring to search for
@@ -320,6 +359,21 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
         return result;
     }
 
+    // Check for prefix match: pattern ends with *
+    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
+        // Compare all characters except the trailing *
+        return strncmp(key, pattern, pattern_len - 1) == 0;
+    }
+
+    // Check for suffix match: pattern starts with *
+    if (pattern_len > 1 && pattern[0] == '*') {
+        // Compare the suffix
+        size_t suffix_len = pattern_len - 1;
+        if (key_len >= suffix_len) {
+            return strcmp(key + (key_len - suffix_len), pattern + 1) == 0;
+        }
+    }
+
     return false;
 }
 
@@ -634,7 +688,7 @@ mcp_advanced_rate_limiter_t* mcp_advanced_rate_limiter_create(const mcp_advanced
     limiter->client_buckets = (client_entry_t**)calloc(limiter->client_capacity, sizeof(client_entry_t*));
     if (!limiter->client_buckets) {
         mcp_log_error("Failed to allocate memory for client hash table");
-        mcp_rwlock_destroy(limiter->lock);
+        mcp_rwlock_free(limiter->lock);
         free(limiter);
         return NULL;
     }
@@ -710,7 +764,7 @@ void mcp_advanced_rate_limiter_destroy(mcp_advanced_rate_limiter_t* limiter) {
 
     // Release lock and destroy it
     mcp_rwlock_write_unlock(limiter->lock);
-    mcp_rwlock_destroy(limiter->lock);
+    mcp_rwlock_free(limiter->lock);
 
     // Free the limiter itself
     free(limiter);
@@ -724,15 +778,16 @@ bool mcp_advanced_rate_limiter_add_rule(mcp_advanced_rate_limiter_t* limiter, co
         return false;
     }
 
+    // Acquire write lock
+    mcp_rwlock_write_lock(limiter->lock);
+
     // Check if we've reached the maximum number of rules for this key type
     if (limiter->rule_counts[rule->key_type] >= MAX_RULES_PER_KEY_TYPE) {
         mcp_log_error("Maximum number of rules reached for key type %d", rule->key_type);
+        mcp_rwlock_write_unlock(limiter->lock);
         return false;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(limiter->lock);
-
     // Create a new rule entry
     rule_entry_t* entry = (rule_entry_t*)malloc(sizeof(rule_entry_t));
     if (!entry) {
@@ -836,15 +891,16 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         return false;
     }
 
+    bool allowed = false;
+
+    // A check creates entries and updates counters, so it needs the write lock
+    mcp_rwlock_write_lock(limiter->lock);
+
     // Increment total requests counter
     limiter->total_requests++;
 
     // Get current time
     time_t current_time = time(NULL);
-    bool allowed = false;
-
-    // Acquire read lock
-    mcp_rwlock_read_lock(limiter->lock);
 
     // Check each key type in order of priority
     if (api_key) {
@@ -852,7 +908,7 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         client_entry_t* entry = find_or_create_client_entry(limiter, api_key, MCP_RATE_LIMIT_KEY_API_KEY, NULL);
         if (entry) {
             const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_API_KEY, api_key);
-            if (rule) {
+            if (rule && sync_algorithm_data(entry, rule, current_time)) {
                 // Check using the appropriate algorithm
                 switch (rule->algorithm) {
                     case MCP_RATE_LIMIT_FIXED_WINDOW:
@@ -871,8 +927,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -884,7 +940,7 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         client_entry_t* entry = find_or_create_client_entry(limiter, user_id, MCP_RATE_LIMIT_KEY_USER_ID, NULL);
         if (entry) {
             const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_USER_ID, user_id);
-            if (rule) {
+            if (rule && sync_algorithm_data(entry, rule, current_time)) {
                 // Check using the appropriate algorithm
                 switch (rule->algorithm) {
                     case MCP_RATE_LIMIT_FIXED_WINDOW:
@@ -903,8 +959,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -916,7 +972,7 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         client_entry_t* entry = find_or_create_client_entry(limiter, ip_address, MCP_RATE_LIMIT_KEY_IP, NULL);
         if (entry) {
             const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_IP, ip_address);
-            if (rule) {
+            if (rule && sync_algorithm_data(entry, rule, current_time)) {
                 // Check using the appropriate algorithm
                 switch (rule->algorithm) {
                     case MCP_RATE_LIMIT_FIXED_WINDOW:
@@ -935,8 +991,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -948,7 +1004,7 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         client_entry_t* entry = find_or_create_client_entry(limiter, custom_key, MCP_RATE_LIMIT_KEY_CUSTOM, NULL);
         if (entry) {
             const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, MCP_RATE_LIMIT_KEY_CUSTOM, custom_key);
-            if (rule) {
+            if (rule && sync_algorithm_data(entry, rule, current_time)) {
                 // Check using the appropriate algorithm
                 switch (rule->algorithm) {
                     case MCP_RATE_LIMIT_FIXED_WINDOW:
@@ -967,19 +1023,19 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
         }
     }
 
-    // Release lock
-    mcp_rwlock_read_unlock(limiter->lock);
-
     // If we get here, the request is denied
     limiter->denied_requests++;
+
+    // Release lock
+    mcp_rwlock_write_unlock(limiter->lock);
     return false;
 }
 
-- 
2.43.0


From aa9b47143d5186ca6e243eb31fe23789bdc810b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:12 +0000
Subject: [PATCH 009/120] fix: end each HTTP session once and access sessions
 under the manager's lock

---
 src/transport/mcp_http_session_manager.c | 70 +++++++++++++++++-------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/transport/mcp_http_session_manager.c b/src/transport/mcp_http_session_manager.c
index 0114560..1c09bfb 100644
--- a/src/transport/mcp_http_session_manager.c
+++ b/src/transport/mcp_http_session_manager.c
@@ -27,6 +27,7 @@ struct mcp_http_session {
     uint32_t timeout_seconds;
     void* user_data;
     bool in_use;
+    struct mcp_http_session_manager* manager;
 };
 
 // Session manager structure
@@ -123,6 +124,15 @@ static void notify_session_event(mcp_http_session_manager_t* manager, const char
     }
 }
 
+// Ends an active session once; a session that has already ended is left alone
+static void expire_session(mcp_http_session_manager_t* manager, mcp_http_session_t* session) {
+    if (session->state == MCP_SESSION_STATE_ACTIVE) {
+        session->state = MCP_SESSION_STATE_EXPIRED;
+        manager->active_count--;
+        notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
+    }
+}
+
 mcp_http_session_manager_t* mcp_session_manager_create(uint32_t default_timeout_seconds) {
     mcp_http_session_manager_t* manager = (mcp_http_session_manager_t*)calloc(1, sizeof(mcp_http_session_manager_t));
     if (manager == NULL) {
@@ -130,7 +140,7 @@ mcp_http_session_manager_t* mcp_session_manager_create(uint32_t default_timeout_
         return NULL;
     }
     
-    manager->mutex = mcp_mutex_create();
+    manager->mutex = mcp_recursive_mutex_create();
     if (manager->mutex == NULL) {
         mcp_log_error("Failed to create session manager mutex");
         free(manager);
@@ -144,6 +154,7 @@ mcp_http_session_manager_t* mcp_session_manager_create(uint32_t default_timeout_
     for (size_t i = 0; i < MAX_SESSIONS; i++) {
         manager->sessions[i].in_use = false;
         manager->sessions[i].state = MCP_SESSION_STATE_TERMINATED;
+        manager->sessions[i].manager = manager;
     }
     
     mcp_log_info("Session manager created with default timeout: %u seconds", default_timeout_seconds);
@@ -225,9 +236,10 @@ mcp_http_session_t* mcp_session_manager_create_session(mcp_http_session_manager_
     strncpy(session_id_out, session->session_id, MCP_SESSION_ID_MAX_LENGTH - 1);
     session_id_out[MCP_SESSION_ID_MAX_LENGTH - 1] = '\0';
     
+    uint32_t session_timeout = session->timeout_seconds;
     mcp_mutex_unlock(manager->mutex);
     
-    mcp_log_info("Created session: %s (timeout: %u seconds)", session->session_id, session->timeout_seconds);
+    mcp_log_info("Created session: %s (timeout: %u seconds)", session_id_out, session_timeout);
     return session;
 }
 
@@ -246,8 +258,7 @@ mcp_http_session_t* mcp_session_manager_get_session(mcp_http_session_manager_t*
             
             // Check if expired
             if (is_session_expired(session)) {
-                session->state = MCP_SESSION_STATE_EXPIRED;
-                notify_session_event(manager, session_id, MCP_SESSION_STATE_EXPIRED);
+                expire_session(manager, session);
                 mcp_mutex_unlock(manager->mutex);
                 return NULL;
             }
@@ -293,42 +304,65 @@ bool mcp_session_manager_terminate_session(mcp_http_session_manager_t* manager,
 }
 
 void mcp_session_touch(mcp_http_session_t* session) {
-    if (session != NULL && session->in_use) {
+    if (session == NULL) {
+        return;
+    }
+
+    mcp_mutex_lock(session->manager->mutex);
+    // Using a session that has already run out does not bring it back
+    if (!is_session_expired(session)) {
         session->last_access_time = time(NULL);
     }
+    mcp_mutex_unlock(session->manager->mutex);
 }
 
 const char* mcp_session_get_id(mcp_http_session_t* session) {
-    if (session == NULL || !session->in_use) {
+    if (session == NULL) {
         return NULL;
     }
-    return session->session_id;
+
+    mcp_mutex_lock(session->manager->mutex);
+    const char* id = session->in_use ? session->session_id : NULL;
+    mcp_mutex_unlock(session->manager->mutex);
+    return id;
 }
 
 mcp_session_state_t mcp_session_get_state(mcp_http_session_t* session) {
-    if (session == NULL || !session->in_use) {
+    if (session == NULL) {
         return MCP_SESSION_STATE_TERMINATED;
     }
 
-    // Check if expired
-    if (is_session_expired(session)) {
-        return MCP_SESSION_STATE_EXPIRED;
+    mcp_mutex_lock(session->manager->mutex);
+    mcp_session_state_t state = MCP_SESSION_STATE_TERMINATED;
+    if (session->in_use) {
+        // Check if expired
+        state = is_session_expired(session) ? MCP_SESSION_STATE_EXPIRED : session->state;
     }
-
-    return session->state;
+    mcp_mutex_unlock(session->manager->mutex);
+    return state;
 }
 
 void mcp_session_set_user_data(mcp_http_session_t* session, void* user_data) {
-    if (session != NULL && session->in_use) {
+    if (session == NULL) {
+        return;
+    }
+
+    mcp_mutex_lock(session->manager->mutex);
+    if (session->in_use) {
         session->user_data = user_data;
     }
+    mcp_mutex_unlock(session->manager->mutex);
 }
 
 void* mcp_session_get_user_data(mcp_http_session_t* session) {
-    if (session == NULL || !session->in_use) {
+    if (session == NULL) {
         return NULL;
     }
-    return session->user_data;
+
+    mcp_mutex_lock(session->manager->mutex);
+    void* user_data = session->in_use ? session->user_data : NULL;
+    mcp_mutex_unlock(session->manager->mutex);
+    return user_data;
 }
 
 void mcp_session_manager_set_event_callback(mcp_http_session_manager_t* manager,
@@ -355,12 +389,10 @@ size_t mcp_session_manager_cleanup_expired(mcp_http_session_manager_t* manager)
             mcp_http_session_t* session = &manager->sessions[i];
 
             if (is_session_expired(session)) {
-                session->state = MCP_SESSION_STATE_EXPIRED;
+                expire_session(manager, session);
                 session->in_use = false;
-                manager->active_count--;
                 cleaned_count++;
 
-                notify_session_event(manager, session->session_id, MCP_SESSION_STATE_EXPIRED);
                 mcp_log_debug("Cleaned up expired session: %s", session->session_id);
             }
         }
-- 
2.43.0


From e80f4557bbf95a07c38e63411b7867c0af5eb394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:55 +0000
Subject: [PATCH 010/120] fix: copy cached content under the lock and release
 it with its entry

Lookups copied items after dropping the lock, so a concurrent replace freed them
meanwhile. Evicted, replaced and expired entries leaked their items, and items
went back to whichever pool was used last. A default lifetime of 0 means that
entries do not expire, as documented.
---
 src/server/mcp_cache.c | 391 ++++++++---------------------------------
 1 file changed, 74 insertions(+), 317 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 6ae64a8..86c0977 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -33,7 +33,7 @@ typedef struct {
     size_t content_count;        // Number of items in the content array
     time_t expiry_time;          // Absolute expiration time (0 for never expires)
     time_t last_accessed;        // For LRU eviction
-    bool is_pooled;              // Flag to indicate if content items are from a pool
+    mcp_object_pool_t* pool;     // Pool the content items were taken from
     mcp_list_node_t* lru_node;   // Pointer to this entry's node in the LRU list
 } mcp_cache_entry_t;
 
@@ -49,9 +49,23 @@ struct mcp_resource_cache {
     mcp_list_t* lru_list;        // LRU list for eviction ordering
     size_t capacity;             // Max number of entries
     time_t default_ttl_seconds;  // Default TTL for new entries
-    mcp_object_pool_t* pool;     // Object pool for content items
 };
 
+// Helper function to clean up a content item and give it back to its pool
+static void cleanup_content_item(mcp_object_pool_t* pool, mcp_content_item_t* item) {
+    if (!item)
+        return;
+
+    // Free the internal data
+    free(item->mime_type);
+    free(item->data);
+    item->mime_type = NULL;
+    item->data = NULL;
+    item->data_size = 0;
+
+    mcp_object_pool_release(pool, item);
+}
+
 // Free function for cache entries (used by hash table)
 static void free_cache_entry(void* value) {
     mcp_cache_entry_t* entry = (mcp_cache_entry_t*)value;
@@ -61,9 +75,11 @@ static void free_cache_entry(void* value) {
     // Free the key duplicate used for LRU list
     free(entry->key);
 
-    // Just free the entry structure and the content array
-    // The actual content items are handled separately in cleanup_cache_entry
+    // Release the content items, then the array and the entry structure
     if (entry->content) {
+        for (size_t i = 0; i < entry->content_count; ++i) {
+            cleanup_content_item(entry->pool, entry->content[i]);
+        }
         free(entry->content);
     }
 
@@ -115,71 +131,14 @@ mcp_resource_cache_t* mcp_cache_create(size_t capacity, time_t default_ttl_secon
 
     cache->capacity = capacity;
     cache->default_ttl_seconds = default_ttl_seconds;
-    cache->pool = NULL; // Will be set in mcp_cache_get/put
 
     return cache;
 }
 
-// Helper function to clean up a content item
-static void cleanup_content_item(mcp_resource_cache_t* cache, mcp_content_item_t* item) {
-    if (!cache || !item)
-        return;
-
-    // Free the internal data
-    free(item->mime_type);
-    free(item->data);
-    item->mime_type = NULL;
-    item->data = NULL;
-    item->data_size = 0;
-
-    // If we have a pool, release the item back to it
-    if (cache->pool) {
-        mcp_object_pool_release(cache->pool, item);
-    } else {
-        // Otherwise, free it directly
-        free(item);
-    }
-}
-
-// Helper function to clean up a cache entry's content items
-static void cleanup_cache_entry_content(mcp_resource_cache_t* cache, mcp_cache_entry_t* entry) {
-    if (!cache || !entry || !entry->content)
-        return;
-
-    for (size_t i = 0; i < entry->content_count; ++i) {
-        if (entry->content[i]) {
-            cleanup_content_item(cache, entry->content[i]);
-        }
-    }
-}
-
-// Helper function to clean up all entries in the cache
-static void cleanup_all_cache_entries(mcp_resource_cache_t* cache) {
-    if (!cache || !cache->table)
-        return;
-
-    // Iterate through all buckets
-    for (size_t i = 0; i < cache->table->capacity; i++) {
-        mcp_hashtable_entry_t* bucket_entry = cache->table->buckets[i];
-        while (bucket_entry) {
-            mcp_hashtable_entry_t* next = bucket_entry->next;
-            mcp_cache_entry_t* entry = (mcp_cache_entry_t*)bucket_entry->value;
-
-            // Clean up the entry's content items
-            cleanup_cache_entry_content(cache, entry);
-
-            bucket_entry = next;
-        }
-    }
-}
-
 void mcp_cache_destroy(mcp_resource_cache_t* cache) {
     if (!cache)
         return;
 
-    // Clean up all entries first
-    cleanup_all_cache_entries(cache);
-
     // Destroy hash table (which will free all entries)
     if (cache->table) {
         mcp_hashtable_destroy(cache->table);
@@ -196,7 +155,7 @@ void mcp_cache_destroy(mcp_resource_cache_t* cache) {
 }
 
 // Helper function to create a new cache entry
-static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds, mcp_resource_cache_t* cache) {
+static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds, mcp_resource_cache_t* cache, mcp_object_pool_t* pool) {
     if (!uri || !cache)
         return NULL;
 
@@ -218,9 +177,8 @@ static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds
     entry->last_accessed = time(NULL);
     time_t effective_ttl = (ttl_seconds == 0) ? cache->default_ttl_seconds : (time_t)ttl_seconds;
     // 0 means never expires
-    entry->expiry_time = (effective_ttl < 0) ? 0 : entry->last_accessed + effective_ttl;
-    // Mark as pooled since we're using the pool
-    entry->is_pooled = true;
+    entry->expiry_time = (effective_ttl <= 0) ? 0 : entry->last_accessed + effective_ttl;
+    entry->pool = pool;
     // Will be set after adding to LRU list
     entry->lru_node = NULL;
 
@@ -236,20 +194,6 @@ static void update_lru_position(mcp_resource_cache_t* cache, mcp_cache_entry_t*
     mcp_list_move_to_front(cache->lru_list, entry->lru_node);
 }
 
-// Helper function to clean up a cache entry and its resources
-static void free_entry_resources(mcp_resource_cache_t* cache, mcp_cache_entry_t* entry) {
-    if (!cache || !entry)
-        return;
-
-    // Clean up content items
-    cleanup_cache_entry_content(cache, entry);
-
-    // Free the entry's resources
-    free(entry->key);
-    free(entry->content);
-    // The entry itself will be freed by the hash table's free function
-}
-
 // Helper function to add an entry to the LRU list and hash table
 static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_cache_entry_t* entry) {
     if (!cache || !uri || !entry)
@@ -263,7 +207,11 @@ static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_
 
     // Add entry to hash table (this will replace any existing entry with the same key)
     // mcp_hashtable_put takes ownership of the 'entry' pointer if successful
-    return mcp_hashtable_put(cache->table, uri, entry);
+    int result = mcp_hashtable_put(cache->table, uri, entry);
+    if (result != 0) {
+        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
+    }
+    return result;
 }
 
 // Helper function to evict the least recently used entry
@@ -298,224 +246,60 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     if (!cache || !uri || !pool || !content || !content_count)
         return -1;
 
-    // Store the pool for future use
-    cache->pool = pool;
-
     *content = NULL;
     *content_count = 0;
     int result = -1; // Default to not found/expired
     PROFILE_START("mcp_cache_get");
 
-    // Local variables to store entry information outside the lock
-    mcp_content_item_t** content_copy_ptrs = NULL;
-    size_t entry_content_count = 0;
-    bool is_expired = false;
+    // The entry may only be looked at while the lock is held: another thread could
+    // replace, evict or invalidate it. The write lock is needed for the LRU update.
+    mcp_rwlock_write_lock(cache->rwlock);
+
     mcp_cache_entry_t* entry = NULL;
     time_t now = time(NULL);
 
-    // First acquire read lock to check if entry exists and is valid
-    mcp_rwlock_read_lock(cache->rwlock);
-
-    // Try to get the entry from the hash table
     if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
         // Check expiration (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Cache hit and valid! Store information for later use
-            entry_content_count = entry->content_count;
-        } else {
-            // Entry is expired
-            is_expired = true;
-        }
-    }
-
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
-
-    // If entry not found or expired, handle accordingly
-    if (!entry) {
-        // Entry not found
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    if (is_expired) {
-        // Entry is expired, acquire write lock to remove it
-        mcp_rwlock_write_lock(cache->rwlock);
-
-        // Double-check that the entry is still in the cache and still expired
-        if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-            if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                // Remove from LRU list first
-                if (entry->lru_node) {
-                    mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                }
-                mcp_hashtable_remove(cache->table, uri);
-            }
-        }
-
-        mcp_rwlock_write_unlock(cache->rwlock);
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // Entry is valid, allocate memory for content copies
-    content_copy_ptrs = (mcp_content_item_t**)malloc(entry_content_count * sizeof(mcp_content_item_t*));
-    if (!content_copy_ptrs) {
-        // Memory allocation failed
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // We need to make a copy of the entry's content for processing outside the lock
-    mcp_content_item_t** entry_content_copies = NULL;
-    size_t actual_content_count = 0;
-
-    // Acquire read lock to copy entry content information
-    mcp_rwlock_read_lock(cache->rwlock);
-
-    // Double-check that the entry is still in the cache and still valid
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration again (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Make a temporary copy of the content pointers and count
-            actual_content_count = entry->content_count;
-            entry_content_copies = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
-
-            if (entry_content_copies) {
-                // Copy the content pointers
-                for (size_t i = 0; i < actual_content_count; ++i) {
-                    entry_content_copies[i] = entry->content[i];
-                }
-            }
-        } else {
-            // Entry expired between our checks
-            is_expired = true;
-        }
-    } else {
-        // Entry was removed between our checks
-        entry = NULL;
-    }
-
-    // Release read lock
-    mcp_rwlock_read_unlock(cache->rwlock);
-
-    // If entry was removed or expired, clean up and return
-    if (!entry || is_expired || !entry_content_copies) {
-        free(content_copy_ptrs);
-        free(entry_content_copies);
-
-        // If entry expired, remove it
-        if (entry && is_expired) {
-            mcp_rwlock_write_lock(cache->rwlock);
-
-            // Double-check again that the entry is still in the cache and still expired
-            if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-                if (entry->expiry_time != 0 && now >= entry->expiry_time) {
-                    // Remove from LRU list first
-                    if (entry->lru_node) {
-                        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
-                    }
-                    mcp_hashtable_remove(cache->table, uri);
-                }
-            }
-
-            mcp_rwlock_write_unlock(cache->rwlock);
-        }
-
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // Now process the content outside the lock
-    size_t copied_count = 0;
-    bool copy_error = false;
-
-    // Copy content items
-    for (size_t i = 0; i < actual_content_count; ++i) {
-        // Validate content item before copying
-        if (!entry_content_copies[i]) {
-            mcp_log_error("NULL content item at index %zu in cache entry", i);
-            copy_error = true;
-            break;
-        }
-
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = entry_content_copies[i]->mime_type ? entry_content_copies[i]->mime_type : "";
-
-        // Acquire a pooled item and copy data into it
-        content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
-            pool,
-            entry_content_copies[i]->type,
-            mime_type,
-            entry_content_copies[i]->data,
-            entry_content_copies[i]->data_size
-        );
-        if (!content_copy_ptrs[i]) {
-            copy_error = true;
-            break; // Exit loop on acquisition/copy failure
-        }
-        copied_count++;
-    }
-
-    // Free the temporary copy of content pointers
-    free(entry_content_copies);
-
-    if (copy_error) {
-        // Release partially acquired/copied items back to pool on error
-        for (size_t i = 0; i < copied_count; ++i) {
-            if (content_copy_ptrs[i]) {
-                cleanup_content_item(cache, content_copy_ptrs[i]);
-            }
-        }
-        free(content_copy_ptrs);
-        PROFILE_END("mcp_cache_get");
-        return -1;
-    }
-
-    // Now acquire write lock to update LRU position
-    mcp_rwlock_write_lock(cache->rwlock);
-
-    // Double-check that the entry is still in the cache and still valid
-    if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
-        // Check expiration again (0 means never expires)
-        if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Return the array of pointers to pooled items
-            *content = content_copy_ptrs;
-            *content_count = actual_content_count;
-            // Update last accessed time
-            entry->last_accessed = now;
-
-            // Update LRU position (move to front of list)
-            update_lru_position(cache, entry);
-
-            result = 0;
-        } else {
-            // Entry expired between our checks, remove it
+        if (entry->expiry_time != 0 && now >= entry->expiry_time) {
+            // Entry is expired, remove it from the LRU list first
             if (entry->lru_node) {
                 mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
             }
             mcp_hashtable_remove(cache->table, uri);
+        } else {
+            mcp_content_item_t** content_copy_ptrs =
+                (mcp_content_item_t**)malloc(entry->content_count * sizeof(mcp_content_item_t*));
+            size_t copied_count = 0;
+
+            // Copy content items
+            while (content_copy_ptrs && copied_count < entry->content_count) {
+                const mcp_content_item_t* item = entry->content[copied_count];
+                content_copy_ptrs[copied_count] = mcp_content_item_acquire_pooled(
+                    pool, item->type, item->mime_type, item->data, item->data_size);
+                if (!content_copy_ptrs[copied_count])
+                    break; // Exit loop on acquisition/copy failure
+                copied_count++;
+            }
 
-            // Release acquired items back to pool
-            for (size_t i = 0; i < copied_count; ++i) {
-                if (content_copy_ptrs[i]) {
-                    cleanup_content_item(cache, content_copy_ptrs[i]);
+            if (content_copy_ptrs && copied_count == entry->content_count) {
+                // Return the array of pointers to pooled items
+                *content = content_copy_ptrs;
+                *content_count = copied_count;
+                entry->last_accessed = now;
+
+                // Update LRU position (move to front of list)
+                update_lru_position(cache, entry);
+                result = 0;
+            } else {
+                // Release partially copied items back to the pool on error
+                for (size_t i = 0; i < copied_count; ++i) {
+                    cleanup_content_item(pool, content_copy_ptrs[i]);
                 }
+                free(content_copy_ptrs);
             }
-            free(content_copy_ptrs);
         }
-    } else {
-        // Entry was removed between our checks
-        // Release acquired items back to pool
-        for (size_t i = 0; i < copied_count; ++i) {
-            if (content_copy_ptrs[i]) {
-                cleanup_content_item(cache, content_copy_ptrs[i]);
-            }
-        }
-        free(content_copy_ptrs);
     }
 
-    // Release write lock
     mcp_rwlock_write_unlock(cache->rwlock);
     PROFILE_END("mcp_cache_get");
     return result;
@@ -544,13 +328,10 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return 0;
     }
 
-    // Store the pool for future use
-    cache->pool = pool;
-
     PROFILE_START("mcp_cache_put");
 
     // First, prepare the entry and content outside the lock
-    mcp_cache_entry_t* entry = create_cache_entry(uri, ttl_seconds, cache);
+    mcp_cache_entry_t* entry = create_cache_entry(uri, ttl_seconds, cache, pool);
     if (!entry) {
         PROFILE_END("mcp_cache_put");
         return -1;
@@ -568,25 +349,16 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     // Acquire pooled items and copy content into them
     bool copy_error = false;
     for (size_t i = 0; i < content_count; ++i) {
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = content[i]->mime_type ? content[i]->mime_type : "";
-
         // Acquire a pooled item and copy data into it
         entry->content[i] = mcp_content_item_acquire_pooled(
             pool,
             content[i]->type,
-            mime_type,
+            content[i]->mime_type,
             content[i]->data,
             content[i]->data_size
         );
         if (!entry->content[i]) {
             copy_error = true;
-            // Release already acquired/copied items back to pool
-            for(size_t j = 0; j < i; ++j) {
-                if (entry->content[j]) {
-                    cleanup_content_item(cache, entry->content[j]);
-                }
-            }
             // Exit loop on acquisition/copy failure
             break;
         }
@@ -595,9 +367,8 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     }
 
     if (copy_error) {
-        // Use free_entry_resources to ensure all resources are properly cleaned up
-        free_entry_resources(cache, entry);
-        free(entry);
+        // Release whatever was copied so far
+        free_cache_entry(entry);
         PROFILE_END("mcp_cache_put");
         return -1;
     }
@@ -615,8 +386,7 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         if (!evict_lru_entry(cache)) {
             mcp_log_error("Cache full but failed to evict LRU entry.");
             mcp_rwlock_write_unlock(cache->rwlock);
-            free_entry_resources(cache, entry);
-            free(entry);
+            free_cache_entry(entry);
             PROFILE_END("mcp_cache_put");
             return -1;
         }
@@ -632,8 +402,7 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     int result = add_entry_to_cache(cache, uri, entry);
     if (result != 0) {
         // Failed to add to cache, clean up the entry
-        free_entry_resources(cache, entry);
-        free(entry);
+        free_cache_entry(entry);
     }
 
     // Release write lock
@@ -659,9 +428,6 @@ int mcp_cache_invalidate(mcp_resource_cache_t* cache, const char* uri) {
             mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
         }
 
-        // Clean up the entry's content items
-        cleanup_cache_entry_content(cache, entry);
-
         // Now remove it from the hash table
         // mcp_hashtable_remove calls the value free function (free_cache_entry)
         result = mcp_hashtable_remove(cache->table, uri);
@@ -807,32 +573,23 @@ size_t mcp_cache_prune_expired(mcp_resource_cache_t* cache) {
     // Iterate through all entries to find expired ones
     mcp_hashtable_foreach(cache->table, collect_expired_keys, &callback_data);
 
-    // If memory allocation failed during callback, clean up and return
-    if (error) {
-        mcp_log_error("Memory allocation failed during cache pruning");
-        goto cleanup;
-    }
-
     // Update keys_to_remove pointer in case realloc changed it
     keys_to_remove = callback_data.keys_to_remove;
     entries_to_cleanup = callback_data.entries_to_cleanup;
 
+    // If memory allocation failed during callback, remove what was collected
+    if (error) {
+        mcp_log_error("Memory allocation failed during cache pruning");
+    }
+
     // Clean up and remove all collected expired entries
     for (size_t i = 0; i < keys_count; i++) {
         if (keys_to_remove[i] && entries_to_cleanup[i]) {
             // Remove from LRU list first
             if (entries_to_cleanup[i]->lru_node) {
-                if (mcp_list_remove(cache->lru_list, entries_to_cleanup[i]->lru_node, NULL) != 0) {
-                    // Error removing from LRU list, but continue with other entries
-                    mcp_log_error("Failed to remove entry from LRU list in prune_expired");
-                    error = 1;
-                    // Don't continue - still try to clean up content and remove from hash table
-                }
+                mcp_list_remove(cache->lru_list, entries_to_cleanup[i]->lru_node, NULL);
             }
 
-            // Clean up the entry's content items
-            cleanup_cache_entry_content(cache, entries_to_cleanup[i]);
-
             // Now remove it from the hash table
             if (mcp_hashtable_remove(cache->table, keys_to_remove[i]) != 0) {
                 // Error removing from hash table, but continue with other entries
-- 
2.43.0


From dd4a5edccbf81201c3b58128e901c127f1af9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:55 +0000
Subject: [PATCH 011/120] fix: stop the server's thread pool before freeing
 what its tasks use

The cache is destroyed before the object pool its items come from.
---
 src/server/mcp_server.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..6ce7e32 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -122,8 +122,8 @@ static int add_to_hashtable(
 static void cleanup_server_resources(mcp_server_t* server) {
     if (!server) return;
 
-    // Clean up object pool
-    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
+    // Clean up thread pool first: tasks still running use everything below
+    safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
 
     // Clean up hash tables
     safe_destroy_hashtable(&server->tools_table);
@@ -139,11 +139,9 @@ static void cleanup_server_resources(mcp_server_t* server) {
     safe_destroy_resource((void**)&server->advanced_rate_limiter, (void(*)(void*))mcp_advanced_rate_limiter_destroy);
     safe_destroy_resource((void**)&server->rate_limiter, (void(*)(void*))mcp_rate_limiter_destroy);
 
-    // Clean up resource cache
+    // Clean up resource cache, then the pool its items were taken from
     safe_destroy_resource((void**)&server->resource_cache, (void(*)(void*))mcp_cache_destroy);
-
-    // Clean up thread pool
-    safe_destroy_resource((void**)&server->thread_pool, (void(*)(void*))mcp_thread_pool_destroy);
+    safe_destroy_resource((void**)&server->content_item_pool, (void(*)(void*))mcp_object_pool_destroy);
 
     // Clean up synchronization primitives
     safe_destroy_resource((void**)&server->shutdown_mutex, (void(*)(void*))mcp_mutex_destroy);
-- 
2.43.0


From ac45538de2cda70d6a00b1f103baa9bdcd556cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:46 +0000
Subject: [PATCH 012/120] fix: read surrogate pairs and out-of-range JSON
 numbers correctly and free partial results

Escaped characters outside the BMP became two invalid three-byte sequences, an
escaped NUL cut the string short, 1e999 was written back as inf, and documents
with errors leaked everything parsed before the error.
---
 src/json/mcp_json_parser.c      | 90 +++++++++++++++++++++------------
 src/json/mcp_json_stringifier.c |  5 ++
 2 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..7ad2e2c 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdbool.h>
+#include <math.h>
 
 // --- JSON Parser Implementation ---
 // Simple recursive descent parser.
@@ -28,24 +29,26 @@ static void skip_whitespace(const char** json) {
     }
 }
 
-// Helper function to convert a 4-digit hex Unicode escape to UTF-8
-static int hex_to_utf8(const char* hex, char* utf8) {
-    // Convert 4 hex digits to a Unicode code point
-    unsigned int code_point = 0;
+// Helper function to read 4 hex digits, returns -1 if one is invalid
+static int parse_hex4(const char* hex) {
+    int value = 0;
     for (int i = 0; i < 4; i++) {
-        code_point <<= 4;
+        value <<= 4;
         if (hex[i] >= '0' && hex[i] <= '9') {
-            code_point |= hex[i] - '0';
+            value |= hex[i] - '0';
         } else if (hex[i] >= 'a' && hex[i] <= 'f') {
-            code_point |= hex[i] - 'a' + 10;
+            value |= hex[i] - 'a' + 10;
         } else if (hex[i] >= 'A' && hex[i] <= 'F') {
-            code_point |= hex[i] - 'A' + 10;
+            value |= hex[i] - 'A' + 10;
         } else {
-            return 0; // Invalid hex digit
+            return -1; // Invalid hex digit
         }
     }
+    return value;
+}
 
-    // Convert code point to UTF-8
+// Helper function to convert a Unicode code point to UTF-8
+static int code_point_to_utf8(unsigned int code_point, char* utf8) {
     if (code_point < 0x80) {
         // 1-byte UTF-8 (ASCII)
         utf8[0] = (char)code_point;
@@ -55,12 +58,19 @@ static int hex_to_utf8(const char* hex, char* utf8) {
         utf8[0] = (char)(0xC0 | (code_point >> 6));
         utf8[1] = (char)(0x80 | (code_point & 0x3F));
         return 2;
-    } else {
+    } else if (code_point < 0x10000) {
         // 3-byte UTF-8
         utf8[0] = (char)(0xE0 | (code_point >> 12));
         utf8[1] = (char)(0x80 | ((code_point >> 6) & 0x3F));
         utf8[2] = (char)(0x80 | (code_point & 0x3F));
         return 3;
+    } else {
+        // 4-byte UTF-8
+        utf8[0] = (char)(0xF0 | (code_point >> 18));
+        utf8[1] = (char)(0x80 | ((code_point >> 12) & 0x3F));
+        utf8[2] = (char)(0x80 | ((code_point >> 6) & 0x3F));
+        utf8[3] = (char)(0x80 | (code_point & 0x3F));
+        return 4;
     }
 }
 
@@ -117,32 +127,37 @@ static char* parse_string(const char** json) {
                 case 't':  result[length++] = '\t'; p++; break;
                 case 'u': { // Unicode escape - convert to UTF-8
                     p++; // Skip 'u'
-                    // Validate hex digits
-                    for (int i = 0; i < 4; i++) {
-                        if (!((p[i] >= '0' && p[i] <= '9') ||
-                              (p[i] >= 'a' && p[i] <= 'f') ||
-                              (p[i] >= 'A' && p[i] <= 'F'))) {
-                            mcp_log_error("Invalid hex digit in \\u escape.");
-                            free(result);
-                            return NULL;
-                        }
+                    int code_point = parse_hex4(p);
+                    if (code_point < 0) {
+                        mcp_log_error("Invalid hex digit in \\u escape.");
+                        free(result);
+                        return NULL;
                     }
+                    p += 4; // Skip the 4 hex digits
 
-                    // Convert \uXXXX to UTF-8
-                    char utf8_buf[4]; // Max 3 bytes for BMP + null terminator
-                    int utf8_len = hex_to_utf8(p, utf8_buf);
-                    if (utf8_len == 0) {
-                        mcp_log_error("Failed to convert Unicode escape to UTF-8.");
+                    // Characters outside the BMP are written as a surrogate pair
+                    if (code_point >= 0xD800 && code_point <= 0xDBFF && p[0] == '\\' && p[1] == 'u') {
+                        int low = parse_hex4(p + 2);
+                        if (low >= 0xDC00 && low <= 0xDFFF) {
+                            code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+                            p += 6;
+                        }
+                    }
+                    if (code_point == 0 || (code_point >= 0xD800 && code_point <= 0xDFFF)) {
+                        // Strings are null-terminated, and half a surrogate pair is no character
+                        mcp_log_error("Unsupported \\u escape.");
                         free(result);
                         return NULL;
                     }
 
+                    // Convert the code point to UTF-8
+                    char utf8_buf[4];
+                    int utf8_len = code_point_to_utf8((unsigned int)code_point, utf8_buf);
+
                     // Copy UTF-8 bytes to result
                     for (int i = 0; i < utf8_len; i++) {
                         result[length++] = utf8_buf[i];
                     }
-
-                    p += 4; // Skip the 4 hex digits
                     break;
                 }
                 default:
@@ -204,13 +219,15 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         skip_whitespace(json);
         char* name = parse_string(json);
         if (name == NULL) {
-            // Don't destroy object here, let caller handle cleanup via arena reset/destroy
+            // The node is in the arena, but what it refers to is not
+            mcp_json_destroy(object);
             return NULL;
         }
         skip_whitespace(json);
         if (**json != ':') {
             mcp_log_error("JSON parse error: Expected ':' after object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++; // Skip ':'
@@ -219,6 +236,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value for object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         // Set property using generic hash table
@@ -227,7 +245,8 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (mcp_hashtable_put(object->object_table, name, value) != 0) {
             mcp_log_error("JSON parse error: Failed to set property '%s' using mcp_hashtable_put.", name);
             free(name); // Free the parsed name string
-            // Don't destroy value (it's in arena), don't destroy object
+            mcp_json_destroy(value);
+            mcp_json_destroy(object);
             return NULL;
         }
         free(name);
@@ -238,6 +257,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or '}' after object property.");
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++;
@@ -268,13 +288,14 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         mcp_json_t* value = parse_value(json, depth + 1);
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value in array.");
-            // Don't destroy array, let caller handle via arena
+            mcp_json_destroy(array);
             return NULL;
         }
         // Add item uses realloc for backing store, not arena
         if (mcp_json_array_add_item(array, value) != 0) {
             mcp_log_error("JSON parse error: Failed to add item to array.");
-            // Don't destroy value (it's in arena)
+            mcp_json_destroy(value);
+            mcp_json_destroy(array);
             return NULL;
         }
         skip_whitespace(json);
@@ -284,6 +305,7 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or ']' after array element.");
+            mcp_json_destroy(array);
             return NULL;
         }
         (*json)++;
@@ -320,6 +342,10 @@ static mcp_json_t* parse_number(const char** json) {
         mcp_log_error("JSON parse error: Invalid number format near '%s'.", start);
         return NULL;
     }
+    if (!isfinite(value)) {
+        mcp_log_error("JSON parse error: Number out of range.");
+        return NULL;
+    }
     return mcp_json_number_create(value);
 }
 
@@ -385,7 +411,7 @@ mcp_json_t* mcp_json_parse(const char* json) {
     if (*current != '\0') {
         mcp_log_error("JSON parse error: Trailing characters found after valid JSON: '%s'", current);
         // Trailing characters after valid JSON
-        // Don't destroy result (it's in thread-local arena), let caller handle arena.
+        mcp_json_destroy(result);
         return NULL;
     }
     return result;
diff --git a/src/json/mcp_json_stringifier.c b/src/json/mcp_json_stringifier.c
index 2e1ad03..e1ce8fa 100644
--- a/src/json/mcp_json_stringifier.c
+++ b/src/json/mcp_json_stringifier.c
@@ -5,6 +5,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdbool.h>
+#include <math.h>
 
 // Stringification uses malloc/realloc for the output buffer, not arena.
 // Forward declaration for estimating JSON size
@@ -181,6 +182,10 @@ int stringify_value(const mcp_json_t* json, char** output, size_t* output_size,
         case MCP_JSON_NULL:    return append_string(output, output_size, output_capacity, "null");
         case MCP_JSON_BOOLEAN: return append_string(output, output_size, output_capacity, json->boolean_value ? "true" : "false");
         case MCP_JSON_NUMBER: {
+            if (!isfinite(json->number_value)) {
+                // JSON has no notation for infinities and NaN
+                return append_string(output, output_size, output_capacity, "null");
+            }
             char buffer[32];
             // Use snprintf for robust number formatting, ensuring locale independence if possible
             // %.17g is generally good for preserving double precision
-- 
2.43.0


From 23c068d191f4f8e219e75e80c3f7567ea61afbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:46 +0000
Subject: [PATCH 013/120] fix: escape all control characters in messages and
 requests

dyn_buf_append_json_string wrote most control characters raw, which is invalid
JSON, and direct requests did not escape the method at all.
---
 src/common/mcp_string_utils.c | 16 +++++++--
 src/json/mcp_json_rpc.c       | 65 +++++++----------------------------
 2 files changed, 26 insertions(+), 55 deletions(-)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..e49dabd 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -171,8 +171,8 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Normal character, or \u00XX for the other control characters
+                additional_len += ((unsigned char)c < 0x20) ? 6 : 1;
                 break;
         }
     }
@@ -197,7 +197,17 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex_digits[] = "0123456789abcdef";
+                    memcpy(dest, "\\u00", 4);
+                    dest[4] = hex_digits[(unsigned char)c >> 4];
+                    dest[5] = hex_digits[(unsigned char)c & 0x0F];
+                    dest += 6;
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..1d30435 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -181,65 +181,26 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
         return NULL;
     }
 
-    // Calculate the required buffer size more accurately to avoid reallocations
-    size_t method_len = strlen(method);
-    size_t params_len = (params != NULL) ? strlen(params) : 0;
-
-    // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
-
-    // Add space for params if provided: ,"params":PARAMS
-    // 11 bytes for ,"params": + params length
-    if (params != NULL) {
-        buffer_size += 11 + params_len;
-    }
-
-    // Add space for closing brace and null terminator
-    buffer_size += 2;
-
-    // Allocate the buffer with the calculated size
-    char* buffer = (char*)malloc(buffer_size);
-    if (!buffer) {
+    // Fixed parts and id need less than 64 bytes
+    dyn_buf_t db;
+    if (dyn_buf_init(&db, 64 + strlen(method) + (params != NULL ? strlen(params) : 0)) != 0) {
         return NULL;
     }
 
-    // Format the basic request structure
-    int written = snprintf(buffer, buffer_size,
-        "{\"jsonrpc\":\"2.0\",\"id\":%" PRIu64 ",\"method\":\"%s\"",
-        id, method);
-
-    if (written < 0 || (size_t)written >= buffer_size) {
-        // Buffer too small or error
-        free(buffer);
-        return NULL;
-    }
+    char id_buf[32];
+    snprintf(id_buf, sizeof(id_buf), "%" PRIu64, id);
 
-    // Add params if provided
-    if (params != NULL) {
-        // Append the params
-        written += snprintf(buffer + written, buffer_size - written,
-            ",\"params\":%s", params);
-
-        if (written < 0 || (size_t)written >= buffer_size) {
-            // Buffer calculation error or snprintf error
-            free(buffer);
-            return NULL;
-        }
-    }
-
-    // Add closing brace
-    if ((size_t)written + 2 <= buffer_size) {
-        buffer[written] = '}';
-        buffer[written + 1] = '\0';
-    }
-    else {
-        // This should never happen with our buffer size calculation
-        free(buffer);
+    if (dyn_buf_append(&db, "{\"jsonrpc\":\"2.0\",\"id\":") != 0 ||
+        dyn_buf_append(&db, id_buf) != 0 ||
+        dyn_buf_append(&db, ",\"method\":") != 0 ||
+        dyn_buf_append_json_string(&db, method) != 0 ||
+        (params != NULL && (dyn_buf_append(&db, ",\"params\":") != 0 || dyn_buf_append(&db, params) != 0)) ||
+        dyn_buf_append(&db, "}") != 0) {
+        dyn_buf_free(&db);
         return NULL;
     }
 
-    return buffer;
+    return dyn_buf_finalize(&db);
 }
 
 char* mcp_json_format_error_response(uint64_t id, mcp_error_code_t error_code, const char* error_message) {
-- 
2.43.0


From d740166dfa7bac4df2bc67bdffc3d15ae3429ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:46 +0000
Subject: [PATCH 014/120] fix: keep every batch element and reject ids that are
 not whole numbers

Elements that are not valid messages stay in the parsed batch as invalid ones,
so that they can be answered. Ids and error codes are only taken when they fit
their type. Trees made while reading or writing a message are released.
---
 include/mcp_json_message.h  |  3 +-
 src/json/mcp_json_message.c | 73 +++++++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/include/mcp_json_message.h b/include/mcp_json_message.h
index b0971da..fa4e159 100644
--- a/include/mcp_json_message.h
+++ b/include/mcp_json_message.h
@@ -68,7 +68,8 @@ char* mcp_json_stringify_message(const mcp_message_t* message);
  * @param json_str The null-terminated JSON string.
  * @param[out] messages Pointer to receive a heap-allocated array of `mcp_message_t` structures.
  *                      The caller is responsible for freeing this array and its contents using `mcp_json_free_message_array`.
- * @param[out] count Pointer to receive the number of messages parsed (1 for single, >=0 for batch).
+ * @param[out] count Pointer to receive the number of messages (1 for single, >=0 for batch).
+ *                   Batch elements that are no valid message have the type MCP_MESSAGE_TYPE_INVALID.
  * @return 0 on success, non-zero on error (e.g., parse error, invalid structure).
  * @note On success, the `messages` array contains structures with dynamically allocated internal data
  *       (strings like method, error_message, result/params). These are freed by `mcp_json_free_message_array`.
diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..6ada67c 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -4,12 +4,26 @@
 #include <stdio.h>
 #include "mcp_string_utils.h"
 #include <inttypes.h>
+#include <limits.h>
+#include <math.h>
 
 // --- MCP Message Parsing/Stringification ---
 // These functions now use the thread-local arena implicitly for parsing/creating
 // the main JSON structure, but still use malloc/mcp_strdup for strings within
 // the mcp_message_t struct and for the stringified result/params.
 
+// Message ids are whole numbers that fit a uint64_t
+static bool is_valid_id(const mcp_json_t* id) {
+    return id->type == MCP_JSON_NUMBER && id->number_value >= 0 &&
+           id->number_value < 18446744073709551616.0 && id->number_value == floor(id->number_value);
+}
+
+// Error codes are whole numbers that fit an int
+static bool is_valid_error_code(const mcp_json_t* code) {
+    return code->type == MCP_JSON_NUMBER && code->number_value >= INT_MIN &&
+           code->number_value <= INT_MAX && code->number_value == floor(code->number_value);
+}
+
 int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json_str == NULL || message == NULL) {
         return -1;
@@ -25,7 +39,8 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json->type != MCP_JSON_OBJECT) {
         // Parsed something, but not an object. Arena contains the invalid node.
         mcp_log_error("MCP message parse error: Root element is not a JSON object.");
-        // Let caller handle arena cleanup.
+        mcp_json_destroy(json);
+        PROFILE_END("mcp_json_parse_message");
         return -1;
     }
 
@@ -42,11 +57,11 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Must have ID for request
             // Check ID type (integer or string allowed by spec, but we use uint64_t)
-            if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
+            if (is_valid_id(id)) { // Allow string ID? No, use number for now.
                 // Check params type (object or array allowed, or omitted)
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss or non-integer?
+                    message->request.id = (uint64_t)id->number_value;
                     message->request.method = mcp_strdup(method->string_value); // Use helper
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Stringify uses malloc
 
@@ -83,9 +98,9 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
         // Check ID type
-        if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
+        if (is_valid_id(id)) { // Allow string ID? No.
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss?
+            message->response.id = (uint64_t)id->number_value;
 
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL) {
@@ -95,7 +110,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
                     // Code MUST be an integer
-                    if (code != NULL && code->type == MCP_JSON_NUMBER) { // TODO: Check if integer?
+                    if (code != NULL && is_valid_error_code(code)) {
                         // Message MUST be a string
                         if (msg != NULL && msg->type == MCP_JSON_STRING) {
                             message->response.error_code = (mcp_error_code_t)(int)code->number_value;
@@ -145,9 +160,10 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
         message->type = MCP_MESSAGE_TYPE_INVALID;
     }
 
-    // Parsed JSON tree ('json') lives in the thread-local arena.
-    // The caller is responsible for calling mcp_arena_reset_current_thread()
-    // or mcp_arena_destroy_current_thread() eventually.
+    // The nodes of the tree live in the thread-local arena. The caller is responsible
+    // for calling mcp_arena_reset_current_thread() or mcp_arena_destroy_current_thread()
+    // eventually, but the strings and tables they refer to are released here.
+    mcp_json_destroy(json);
     PROFILE_END("mcp_json_parse_message");
 
     return parse_status;
@@ -341,16 +357,18 @@ char* mcp_json_create_request(const char* method, const char* params, uint64_t i
             mcp_json_object_set_property(request, "params", params_node);
         }
         final_json_string = mcp_json_stringify(request); // Uses malloc
+        mcp_json_destroy(request); // Releases the properties as well
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC request.");
-        // Nodes are in arena, no need to destroy individually here.
-        // Destroy the partially built request object in the arena if creation failed
-        // Note: mcp_json_destroy handles NULL safely
-        mcp_json_destroy(request); // This will free associated arena nodes if needed by impl
+        mcp_json_destroy(params_node);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(method_node);
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(request);
     }
 
     // The 'request' object and its direct children (jsonrpc, method_node, id_node, params_node if parsed)
-    // were allocated in the thread-local arena. They will be cleaned up later by the arena reset/destroy.
+    // live in the thread-local arena and are cleaned up later by the arena reset/destroy.
     PROFILE_END("mcp_json_create_request");
     return final_json_string; // Return malloc'd string or NULL
 }
@@ -385,9 +403,13 @@ char* mcp_json_create_response(uint64_t id, const char* result) {
         mcp_json_object_set_property(response, "id", id_node);
         mcp_json_object_set_property(response, "result", result_node);
         final_json_string = mcp_json_stringify(response); // Uses malloc
+        mcp_json_destroy(response); // Releases the properties as well
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC response.");
-        mcp_json_destroy(response); // Clean up arena nodes if creation failed
+        mcp_json_destroy(result_node);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(response);
     }
 
     PROFILE_END("mcp_json_create_response");
@@ -416,7 +438,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
     // --- Request Check ---
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Request
-            if (id->type == MCP_JSON_NUMBER) {
+            if (is_valid_id(id)) {
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
                     message->request.id = (uint64_t)id->number_value;
@@ -445,7 +467,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
         }
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
-        if (id->type == MCP_JSON_NUMBER) {
+        if (is_valid_id(id)) {
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
             message->response.id = (uint64_t)id->number_value;
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
@@ -454,7 +476,7 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
                 else {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
-                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING) {
+                    if (code != NULL && is_valid_error_code(code) && msg != NULL && msg->type == MCP_JSON_STRING) {
                         message->response.error_code = (mcp_error_code_t)(int)code->number_value;
                         message->response.error_message = mcp_strdup(msg->string_value);
                         message->response.result = NULL;
@@ -575,7 +597,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                *count = batch_size; // Elements that are no message keep the invalid type
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -590,9 +612,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
@@ -613,6 +633,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
     }
 
     // Arena cleanup is handled by the caller
+    mcp_json_destroy(root_json);
     PROFILE_END("mcp_json_parse_batch");
     return result;
 }
@@ -654,9 +675,15 @@ char* mcp_json_create_error_response(uint64_t id, int error_code, const char* er
         mcp_json_object_set_property(response, "id", id_node);
         mcp_json_object_set_property(response, "error", error_obj);
         final_json_string = mcp_json_stringify(response); // Uses malloc
+        mcp_json_destroy(response); // Releases the properties as well
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC error response.");
-        mcp_json_destroy(response); // Clean up arena nodes if creation failed
+        mcp_json_destroy(msg_node);
+        mcp_json_destroy(code_node);
+        mcp_json_destroy(error_obj);
+        mcp_json_destroy(id_node);
+        mcp_json_destroy(jsonrpc);
+        mcp_json_destroy(response);
     }
 
     PROFILE_END("mcp_json_create_error_response");
-- 
2.43.0


From 5a7a729fcc34fa75ca371904b466f5ae9eb58162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 015/120] fix: authenticate every request of a batch and answer
 invalid batch elements

Only the first message of a batch was authenticated, and a leading ping gave
the rest of the batch an anonymous context with full access. An empty API key
means no key, the masked key is no longer kept in a shared buffer, the metrics
methods are reachable, and a one-element batch is answered with an array.
---
 src/server/mcp_auth.c            |  19 ++--
 src/server/mcp_server.c          |  11 ++-
 src/server/mcp_server_dispatch.c | 165 ++++++++++++++-----------------
 3 files changed, 96 insertions(+), 99 deletions(-)

diff --git a/src/server/mcp_auth.c b/src/server/mcp_auth.c
index 895a4b8..0a964d6 100644
--- a/src/server/mcp_auth.c
+++ b/src/server/mcp_auth.c
@@ -99,12 +99,11 @@ error:
  * @brief Creates a masked version of a sensitive string for logging
  *
  * @param sensitive The sensitive string to mask
- * @return A statically allocated string with most characters masked
- * @note The returned string is statically allocated and will be overwritten on subsequent calls
+ * @param masked Buffer that receives the masked string
+ * @param masked_size Size of the buffer
+ * @return The masked string
  */
-static const char* create_masked_string(const char* sensitive) {
-    static char masked[64];
-
+static const char* create_masked_string(const char* sensitive, char* masked, size_t masked_size) {
     if (!sensitive) {
         return "(null)";
     }
@@ -120,8 +119,8 @@ static const char* create_masked_string(const char* sensitive) {
     size_t mask_len = len - prefix_len - suffix_len;
 
     // Ensure we don't overflow the buffer
-    if (prefix_len + mask_len + suffix_len + 1 > sizeof(masked)) {
-        mask_len = sizeof(masked) - prefix_len - suffix_len - 1;
+    if (prefix_len + mask_len + suffix_len + 1 > masked_size) {
+        mask_len = masked_size - prefix_len - suffix_len - 1;
     }
 
     // Copy prefix
@@ -220,7 +219,8 @@ int mcp_auth_verify(mcp_server_t* server, mcp_auth_type_t auth_type, const char*
     mcp_log_debug("mcp_auth_verify called. Type: %d", auth_type);
 
     // --- No Authentication ---
-    if (auth_type == MCP_AUTH_NONE && server->config.api_key == NULL) {
+    if (auth_type == MCP_AUTH_NONE &&
+        (server->config.api_key == NULL || server->config.api_key[0] == '\0')) {
         // Only allow AUTH_NONE if no API key is configured on the server
         mcp_log_debug("Creating anonymous auth context (MCP_AUTH_NONE)");
         mcp_auth_context_t* context = create_wildcard_auth_context(MCP_AUTH_NONE, "anonymous", 0);
@@ -297,7 +297,8 @@ int mcp_auth_verify(mcp_server_t* server, mcp_auth_type_t auth_type, const char*
         }
 
         // Log failure with masked credentials for security
-        const char* masked_creds = create_masked_string(credentials);
+        char masked[64];
+        const char* masked_creds = create_masked_string(credentials, masked, sizeof(masked));
         mcp_log_warn("API Key authentication failed: Key '%s' does not match configured key.", masked_creds);
         PROFILE_END("mcp_auth_verify");
         return -1;
diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 6ce7e32..d06ddb1 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -873,9 +873,18 @@ int mcp_server_process_message(mcp_server_t* server, const void* data, size_t si
         return -1;
     }
 
+    // The message parser works on null-terminated strings
+    char* message = (char*)malloc(size + 1);
+    if (message == NULL) {
+        return -1;
+    }
+    memcpy(message, data, size);
+    message[size] = '\0';
+
     // Process the message and get the response
     int error_code = 0;
-    char* response = handle_message(server, data, size, &error_code);
+    char* response = handle_message(server, message, size, &error_code);
+    free(message);
 
     // Free the response (caller doesn't get it in this API)
     free(response);
diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..79baf73 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -71,6 +71,38 @@ char* handle_ping_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_re
     return response;
 }
 
+/**
+ * @internal
+ * @brief Authenticates one request with the API key found in its own parameters.
+ *
+ * @param server The server instance.
+ * @param request The request to authenticate.
+ * @param[out] auth_context Receives the authentication context on success.
+ * @return 0 on success, non-zero if the request is not authenticated.
+ */
+static int authenticate_request(mcp_server_t* server, const mcp_request_t* request,
+                                mcp_auth_context_t** auth_context) {
+    mcp_auth_type_t required_auth_type = (server->config.api_key != NULL && strlen(server->config.api_key) > 0)
+                                           ? MCP_AUTH_API_KEY
+                                           : MCP_AUTH_NONE;
+    mcp_json_t* params_json = NULL;
+    const char* credentials = NULL;
+
+    if (required_auth_type == MCP_AUTH_API_KEY && request->params != NULL) {
+        params_json = mcp_json_parse(request->params);
+        if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
+            mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
+            if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
+                mcp_json_get_string(key_node, &credentials);
+            }
+        }
+    }
+
+    int result = mcp_auth_verify(server, required_auth_type, credentials, auth_context);
+    mcp_json_destroy(params_json);
+    return result;
+}
+
 /**
  * @internal
  * @brief Parses and handles a single incoming message.
@@ -101,10 +133,6 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     PROFILE_BEGIN("handle_message");
 #endif
 
-    // Start performance metrics collection
-    mcp_performance_timer_t perf_timer = mcp_performance_timer_create();
-    mcp_performance_collect_request_start(&perf_timer);
-
     if (server == NULL || data == NULL || size == 0 || error_code == NULL) {
         if (error_code)
             *error_code = MCP_ERROR_INVALID_PARAMS;
@@ -112,6 +140,10 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     }
     *error_code = MCP_ERROR_NONE; // Default to success
 
+    // Start performance metrics collection
+    mcp_performance_timer_t perf_timer = mcp_performance_timer_create();
+    mcp_performance_collect_request_start(&perf_timer);
+
     // Use the thread-local arena instead of creating a new one
     mcp_log_debug("Using thread-local arena for message processing");
     mcp_arena_t* arena = mcp_arena_get_current();
@@ -120,12 +152,14 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
             mcp_log_error("Failed to initialize thread-local arena");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
+            mcp_performance_collect_request_end(&perf_timer, false, 0, size);
             return create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error");
         }
         arena = mcp_arena_get_current();
         if (!arena) {
             mcp_log_error("Failed to get thread-local arena after initialization");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
+            mcp_performance_collect_request_end(&perf_timer, false, 0, size);
             return create_error_response(0, MCP_ERROR_INTERNAL_ERROR, "Internal server error");
         }
     }
@@ -148,89 +182,21 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
         mcp_arena_reset_current_thread();
         *error_code = parse_result != 0 ? parse_result : MCP_ERROR_PARSE_ERROR;
         // Generate JSON-RPC Parse Error response (ID is unknown)
-        return create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
+        char* error_response = create_error_response(0, MCP_ERROR_PARSE_ERROR, "Parse error");
+        mcp_performance_collect_request_end(&perf_timer, false,
+                                            error_response ? strlen(error_response) : 0, size);
+        return error_response;
     }
 
-    // --- Authentication (Simplified for Batch - Authenticate once based on first request?) ---
-    // TODO: Implement more granular auth per request in batch if needed.
-    mcp_auth_context_t* auth_context = NULL;
-    mcp_auth_type_t required_auth_type = (server->config.api_key != NULL && strlen(server->config.api_key) > 0)
-                                           ? MCP_AUTH_API_KEY
-                                           : MCP_AUTH_NONE;
-    const char* credentials = NULL;
-    uint64_t first_request_id = 0; // For potential batch auth error response
-    bool is_ping_request = false;
-
-    if (message_count > 0 && messages[0].type == MCP_MESSAGE_TYPE_REQUEST) {
-        first_request_id = messages[0].request.id;
-
-        // Check if this is a ping request (special case for authentication)
-        if (messages[0].request.method != NULL && strcmp(messages[0].request.method, "ping") == 0) {
-            is_ping_request = true;
-            mcp_log_debug("Detected ping request, using relaxed authentication");
-        }
-
-        if (required_auth_type == MCP_AUTH_API_KEY) {
-            mcp_json_t* params_json = mcp_json_parse(messages[0].request.params);
-            if (params_json && mcp_json_get_type(params_json) == MCP_JSON_OBJECT) {
-                mcp_json_t* key_node = mcp_json_object_get_property(params_json, "apiKey");
-                if (key_node && mcp_json_get_type(key_node) == MCP_JSON_STRING) {
-                    mcp_json_get_string(key_node, &credentials);
-                }
-            }
-            // Arena handles params_json cleanup
-        }
-    }
-
-    // For ping requests, we'll create a special anonymous auth context if authentication fails
-    if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
-        if (is_ping_request) {
-            // For ping requests, create a special anonymous auth context
-            mcp_log_debug("Creating anonymous auth context for ping request");
-            auth_context = (mcp_auth_context_t*)calloc(1, sizeof(mcp_auth_context_t));
-            if (auth_context) {
-                auth_context->type = MCP_AUTH_NONE;
-                auth_context->identifier = mcp_strdup("ping_anonymous");
-
-                // Add minimal permissions for ping
-                auth_context->allowed_resources = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_resources) {
-                    auth_context->allowed_resources_count = 1;
-                    auth_context->allowed_resources[0] = mcp_strdup("*");
-                }
-
-                auth_context->allowed_tools = (char**)malloc(sizeof(char*));
-                if (auth_context->allowed_tools) {
-                    auth_context->allowed_tools_count = 1;
-                    auth_context->allowed_tools[0] = mcp_strdup("*");
-                }
-            }
-        } else {
-            // For non-ping requests, fail with authentication error
-            mcp_log_warn("Authentication failed for incoming message/batch.");
-            *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
-            // For batch, JSON-RPC spec is unclear on error response format.
-            // Sending a single error response might be appropriate.
-            char* error_response = create_error_response(first_request_id, *error_code, "Authentication failed");
-            mcp_json_free_message_array(messages, message_count); // Free parsed messages
-            // No need to destroy the thread-local arena, just reset it
-            mcp_arena_reset_current_thread();
-#ifdef MCP_ENABLE_PROFILING
-            PROFILE_END("handle_message");
-#endif
-            return error_response;
-        }
-    }
-    mcp_log_debug("Authentication successful (Identifier: %s)", auth_context ? auth_context->identifier : "N/A");
-    // --- End Authentication Check ---
+    // A top-level array is a batch and is answered with an array, however many elements it has
+    const char* first_char = json_str + strspn(json_str, " \t\r\n");
+    bool is_batch_response = (*first_char == '[');
 
     char* final_response_str = NULL;
     dyn_buf_t response_batch_buf; // Use dynamic buffer for batch response array
-    bool is_batch_response = false;
     bool batch_buffer_initialized = false;
 
-    if (message_count > 1) {
-        is_batch_response = true;
+    if (is_batch_response) {
         if (dyn_buf_init(&response_batch_buf, 512) != 0) { // Initial capacity
             mcp_log_error("Failed to init batch response buffer.");
             *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -273,8 +239,23 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
                              (unsigned long long)current_msg->request.id);
             }
 
-            // Handle the request
-            single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            // Every request carries its own credentials and is authenticated by itself
+            mcp_auth_context_t* auth_context = NULL;
+            bool is_ping_request = current_msg->request.method != NULL &&
+                                   strcmp(current_msg->request.method, "ping") == 0;
+            if (authenticate_request(server, &current_msg->request, &auth_context) != 0 && !is_ping_request) {
+                mcp_log_warn("Authentication failed for incoming request.");
+                single_response_str = create_error_response(current_msg->request.id, MCP_ERROR_INVALID_REQUEST,
+                                                            "Authentication failed");
+                if (!is_batch_response) {
+                    *error_code = MCP_ERROR_INVALID_REQUEST; // Generic auth failure
+                }
+            } else {
+                // Handle the request (ping may be handled without an auth context)
+                single_response_str = handle_request(server, arena, &current_msg->request, auth_context, &current_msg_error);
+            }
+            mcp_auth_context_free(auth_context);
+
             // Process the response
             if (single_response_str != NULL) {
                 if (is_batch_response && batch_buffer_initialized) {
@@ -311,8 +292,17 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
             // No response generated for notifications.
         } else if (current_msg->type == MCP_MESSAGE_TYPE_RESPONSE) {
             // Server received a response - typically ignore.
-        } else {
-            // Invalid message type - skip
+        } else if (is_batch_response && batch_buffer_initialized) {
+            // Not a valid message: its sender still gets an answer (ID is unknown)
+            char* error_response = create_error_response(0, MCP_ERROR_INVALID_REQUEST, "Invalid request");
+            if (error_response) {
+                if (!first_response_in_batch) {
+                    dyn_buf_append(&response_batch_buf, ",");
+                }
+                dyn_buf_append(&response_batch_buf, error_response);
+                first_response_in_batch = false;
+                free(error_response);
+            }
         }
 
         // Reset arena for the next message in the batch (if any)
@@ -339,9 +329,6 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
     // Free the parsed message array and its contents
     mcp_json_free_message_array(messages, message_count);
 
-    // Free the authentication context
-    mcp_auth_context_free(auth_context);
-
     // No need to destroy the thread-local arena, just reset it
     mcp_arena_reset_current_thread();
 
@@ -455,10 +442,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From 4137e02889944263b596e55c256ab717dc0c60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:32 +0000
Subject: [PATCH 016/120] fix: count active requests and wake a waiting
 shutdown correctly

---
 src/server/mcp_server.c      | 71 +++++++++++----------------------
 src/server/mcp_server_task.c | 77 ++++++++++++++++++++----------------
 2 files changed, 67 insertions(+), 81 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index d06ddb1..e28e433 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -17,6 +17,7 @@
 #include "mcp_object_pool.h"
 #include "mcp_memory_pool.h"
 #include "mcp_thread_cache.h"
+#include "mcp_sys_utils.h"
 
 /**
  * @brief Default size for the content item object pool
@@ -576,7 +577,9 @@ int mcp_server_stop(mcp_server_t* server) {
 
     // Signal threads to stop
     server->running = false;
+    mcp_mutex_lock(server->shutdown_mutex);
     server->shutting_down = true;
+    mcp_mutex_unlock(server->shutdown_mutex);
 
     // Stop the transport if it exists
     if (server->transport != NULL) {
@@ -586,55 +589,29 @@ int mcp_server_stop(mcp_server_t* server) {
 
     // Handle graceful shutdown if enabled
     if (server->config.enable_graceful_shutdown) {
-        mcp_log_info("Graceful shutdown initiated, waiting for %d active requests to complete...",
-                     server->active_requests);
-
-        // Wait for active requests to complete or timeout
-        if (server->active_requests > 0) {
-            uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
-                                server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
-
-            // Lock mutex and wait on condition variable
-            if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-                bool timed_out = false;
-
-                #ifdef _WIN32
-                // Calculate absolute timeout time for Windows
-                DWORD start_time = GetTickCount();
-                DWORD end_time = start_time + timeout_ms;
-
-                // Wait for active requests to complete or timeout
-                while (server->active_requests > 0 && !timed_out) {
-                    // Wait in small increments to check for timeout
-                    int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, 100);
-                    if (wait_result == -2) { // -2 indicates timeout of the wait call
-                        DWORD current_time = GetTickCount();
-                        if (current_time >= end_time) {
-                            timed_out = true;
-                        }
-                    }
-                }
-                #else
-                // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
-                }
-                #endif
-
-                mcp_mutex_unlock(server->shutdown_mutex);
+        uint32_t timeout_ms = server->config.graceful_shutdown_timeout_ms > 0 ?
+                            server->config.graceful_shutdown_timeout_ms : 1000; // Default 1 second
+
+        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
+            mcp_log_info("Graceful shutdown initiated, waiting for %d active requests to complete...",
+                         server->active_requests);
+
+            // Wait for active requests to complete or timeout
+            long long end_time = mcp_get_time_ms() + timeout_ms;
+            long long remaining_ms = timeout_ms;
+            while (server->active_requests > 0 && remaining_ms > 0) {
+                mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, (uint32_t)remaining_ms);
+                remaining_ms = end_time - mcp_get_time_ms();
+            }
 
-                // Log the shutdown result
-                if (timed_out) {
-                    mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
-                                 timeout_ms, server->active_requests);
-                } else {
-                    mcp_log_info("All requests completed, proceeding with shutdown");
-                }
+            // Log the shutdown result
+            if (server->active_requests > 0) {
+                mcp_log_warn("Graceful shutdown timed out after %u ms with %d requests still active",
+                             timeout_ms, server->active_requests);
+            } else {
+                mcp_log_info("All requests completed, proceeding with shutdown");
             }
-        } else {
-            mcp_log_info("No active requests, proceeding with shutdown");
+            mcp_mutex_unlock(server->shutdown_mutex);
         }
     }
 
diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..29abac6 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,40 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @brief Counts a request as active unless the server is shutting down
+ *
+ * @param server The server instance
+ * @return true if the request was counted, false if it must be rejected
+ */
+static bool begin_request(mcp_server_t* server) {
+    if (mcp_mutex_lock(server->shutdown_mutex) != 0) {
+        return false;
+    }
+    bool accepted = !server->shutting_down;
+    if (accepted) {
+        server->active_requests++;
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+    return accepted;
+}
+
+/**
+ * @brief Ends a request counted by begin_request, waking a waiting shutdown if it was the last one
+ *
+ * @param server The server instance
+ */
+static void end_request(mcp_server_t* server) {
+    if (mcp_mutex_lock(server->shutdown_mutex) != 0) {
+        return;
+    }
+    server->active_requests--;
+    if (server->active_requests == 0 && server->shutting_down) {
+        mcp_cond_signal(server->shutdown_cond);
+    }
+    mcp_mutex_unlock(server->shutdown_mutex);
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,20 +182,14 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
-    // Check if server is shutting down
-    if (server->shutting_down) {
+    // Count the request as active, unless the server is shutting down
+    if (!begin_request(server)) {
         mcp_log_warn("Server is shutting down, rejecting new request");
         *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
-    // Increment active request counter
-#ifdef _WIN32
-    InterlockedIncrement((LONG*)&server->active_requests);
-#else
-    __sync_fetch_and_add(&server->active_requests, 1);
-#endif
-
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -181,11 +209,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                end_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -198,11 +222,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
                 // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
+                end_request(server);
 
                 PROFILE_END("transport_message_callback");
                 return NULL;
@@ -217,6 +237,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        end_request(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
@@ -244,6 +266,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        end_request(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -283,21 +306,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
         mcp_log_error("Failed to process message (error code: %d), no response generated", handler_error_code);
     }
 
-    // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    end_request(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From 71aabda8535c3d714e3fdf31e412d69fc1f943be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:37 +0000
Subject: [PATCH 017/120] fix: release and serialise handler content as
 documented

---
 src/server/mcp_server_handlers.c | 59 +++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 9c30fec..529734c 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -118,14 +118,16 @@ static char* create_json_result(const char* profile_name, uint64_t request_id, i
     return create_success_response(request_id, result_str);
 }
 
-// Helper function to clean up content items
-static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count) {
+// Helper function to clean up content items. Items copied out of the cache belong to the
+// content item pool, items returned by a handler were allocated with malloc.
+static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** content_items, size_t content_count,
+                                  bool from_cache) {
     if (!content_items) return;
 
     for (size_t i = 0; i < content_count; i++) {
         if (content_items[i]) {
-            if (server && server->content_item_pool) {
-                mcp_object_pool_release(server->content_item_pool, content_items[i]);
+            if (from_cache) {
+                mcp_content_item_release_pooled(server->content_item_pool, content_items[i]);
             } else {
                 mcp_content_item_free(content_items[i]);
             }
@@ -134,6 +136,27 @@ static void cleanup_content_items(mcp_server_t* server, mcp_content_item_t** con
     mcp_safe_free(content_items, content_count * sizeof(mcp_content_item_t*));
 }
 
+// Helper function to create a JSON string from the data of a content item, which need not be
+// null-terminated within its data_size bytes
+static mcp_json_t* create_content_text(const mcp_content_item_t* item) {
+    size_t length = 0;
+    const char* data = (const char*)item->data;
+    while (length < item->data_size && data[length] != '\0') {
+        length++;
+    }
+
+    char* text = (char*)malloc(length + 1);
+    if (!text) {
+        return NULL;
+    }
+    memcpy(text, data, length);
+    text[length] = '\0';
+
+    mcp_json_t* json = mcp_json_string_create(text);
+    free(text);
+    return json;
+}
+
 // Helper function to build content JSON from content items
 static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** content_items,
                               size_t content_count, const char* uri) {
@@ -160,10 +183,8 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
             break;
         }
 
-        // Only increment reference count after first use
-        if (i == 0) {
-            mcp_json_increment_ref_count(uri_json_str);
-        }
+        // Every item object holds a reference of its own
+        mcp_json_increment_ref_count(uri_json_str);
 
         if (item->mime_type &&
             mcp_json_object_set_property(item_obj, "mimeType", mcp_json_string_create(item->mime_type)) != 0) {
@@ -172,8 +193,8 @@ static bool build_content_json(mcp_json_t* contents_json, mcp_content_item_t** c
             break;
         }
 
-        if (item->type == MCP_CONTENT_TYPE_TEXT && item->data &&
-            mcp_json_object_set_property(item_obj, "text", mcp_json_string_create((const char*)item->data)) != 0) {
+        if ((item->type == MCP_CONTENT_TYPE_TEXT || item->type == MCP_CONTENT_TYPE_JSON) && item->data &&
+            mcp_json_object_set_property(item_obj, "text", create_content_text(item)) != 0) {
             mcp_json_destroy(item_obj);
             json_build_error = true;
             break;
@@ -211,6 +232,7 @@ static int handle_template_resource(mcp_server_t* server, const char* uri, mcp_c
             free(handler_error_message);
             return handler_status;
         }
+        free(handler_error_message);
         return MCP_ERROR_NONE;
     }
 
@@ -439,6 +461,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
         handler_status = handle_template_resource(server, uri, &content_items, &content_count, &fetched_from_handler);
         if (handler_status != MCP_ERROR_RESOURCE_NOT_FOUND) {
             if (handler_status != MCP_ERROR_NONE) {
+                cleanup_content_items(server, content_items, content_count, false);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Error processing template resource");
             }
@@ -446,7 +469,7 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
             // Try resource handler
             handler_status = handle_resource_handler(server, uri, &content_items, &content_count, &fetched_from_handler);
             if (handler_status != MCP_ERROR_NONE) {
-                cleanup_content_items(server, content_items, content_count);
+                cleanup_content_items(server, content_items, content_count, false);
                 mcp_json_destroy(params_json);
                 RETURN_ERROR(profile_name, handler_status, "Resource handler failed or resource not found");
             }
@@ -472,13 +495,13 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
     PROFILE_START("json_build");
     mcp_json_t* contents_json = mcp_json_array_create_with_capacity(content_count);
     if (!contents_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
         mcp_json_destroy(params_json);
         RETURN_ERROR(profile_name, MCP_ERROR_INTERNAL_ERROR, "Failed to create contents array");
     }
 
     bool json_build_error = build_content_json(contents_json, content_items, content_count, uri);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, !fetched_from_handler);
 
     if (json_build_error) {
         mcp_json_destroy(contents_json);
@@ -611,6 +634,8 @@ static bool build_tool_content_json(mcp_json_t* content_json, mcp_content_item_t
 
     for (size_t i = 0; i < content_count; i++) {
         mcp_content_item_t* item = content_items[i];
+        if (!item) continue;
+
         mcp_json_t* item_obj = mcp_json_object_create();
         const char* type_str;
 
@@ -624,7 +649,7 @@ static bool build_tool_content_json(mcp_json_t* content_json, mcp_content_item_t
         if (!item_obj ||
             mcp_json_object_set_property(item_obj, "type", mcp_json_string_create(type_str)) != 0 ||
             (item->mime_type && mcp_json_object_set_property(item_obj, "mimeType", mcp_json_string_create(item->mime_type)) != 0) ||
-            (item->data && mcp_json_object_set_property(item_obj, "text", mcp_json_string_create((const char*)item->data)) != 0) ||
+            (item->data && mcp_json_object_set_property(item_obj, "text", create_content_text(item)) != 0) ||
             mcp_json_array_add_item(content_json, item_obj) != 0)
         {
             mcp_json_destroy(item_obj);
@@ -708,7 +733,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     if (handler_status != MCP_ERROR_NONE) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         mcp_json_destroy(params_json);
         *error_code = handler_status;
         const char* msg = handler_error_message ? handler_error_message : "Tool handler failed or tool not found";
@@ -720,7 +745,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
 
     mcp_json_t* content_json = mcp_json_array_create();
     if (!content_json) {
-        cleanup_content_items(server, content_items, content_count);
+        cleanup_content_items(server, content_items, content_count, false);
         free(handler_error_message);
         mcp_json_destroy(params_json);
         *error_code = MCP_ERROR_INTERNAL_ERROR;
@@ -730,7 +755,7 @@ char* handle_call_tool_request(mcp_server_t* server, mcp_arena_t* arena, const m
     }
 
     bool json_build_error = build_tool_content_json(content_json, content_items, content_count);
-    cleanup_content_items(server, content_items, content_count);
+    cleanup_content_items(server, content_items, content_count, false);
     free(handler_error_message);
 
     if (json_build_error) {
-- 
2.43.0


From a243c253fb17ba18235e1fb64d463ec729254fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:51 +0000
Subject: [PATCH 018/120] fix: free template routes with a function of the
 right type

---
 src/server/internal/server_template_router.h | 2 +-
 src/server/mcp_server.c                      | 4 ++--
 src/server/mcp_server_template_router.c      | 4 +---
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/server/internal/server_template_router.h b/src/server/internal/server_template_router.h
index 946e516..df7de5a 100644
--- a/src/server/internal/server_template_router.h
+++ b/src/server/internal/server_template_router.h
@@ -41,6 +41,6 @@ mcp_error_code_t mcp_server_handle_template_resource(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data);
+void mcp_server_free_template_routes(void* value);
 
 #endif /* SERVER_TEMPLATE_ROUTER_H */
diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index e28e433..4d3fa61 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -420,7 +420,7 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     }
 
     // Template Routes Table (Key: URI Template string, Value: template_route_t*)
-    server->template_routes_table = create_string_hashtable((mcp_value_free_func_t)mcp_server_free_template_routes);
+    server->template_routes_table = create_string_hashtable(mcp_server_free_template_routes);
     if (server->template_routes_table == NULL) {
         mcp_log_error("Failed to create template routes hash table");
         goto create_error_cleanup;
@@ -686,7 +686,7 @@ int mcp_server_register_template_handler(mcp_server_t* server, const char* templ
     // Create the template routes table if it doesn't exist
     if (server->template_routes_table == NULL) {
         server->template_routes_table = create_string_hashtable(
-            (mcp_value_free_func_t)mcp_server_free_template_routes
+            mcp_server_free_template_routes
         );
 
         if (server->template_routes_table == NULL) {
diff --git a/src/server/mcp_server_template_router.c b/src/server/mcp_server_template_router.c
index 6f18f5e..3710a5f 100644
--- a/src/server/mcp_server_template_router.c
+++ b/src/server/mcp_server_template_router.c
@@ -177,9 +177,7 @@ int mcp_server_register_template_handler_internal(
 /**
  * @brief Callback function to free template routes when the server is destroyed
  */
-void mcp_server_free_template_routes(const void* key, void* value, void* user_data) {
-    (void)key;
-    (void)user_data;
+void mcp_server_free_template_routes(void* value) {
     template_route_t* route = (template_route_t*)value;
     template_route_free(route);
 }
-- 
2.43.0


From 5ec124cce2beff3ef4ea088ebf963fd6cf498bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:35 +0000
Subject: [PATCH 019/120] fix: refuse a response id of exactly 2^64

---
 src/json/mcp_json_rpc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 1d30435..5304cf0 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -281,7 +281,7 @@ int mcp_json_parse_response(
     // Get id
     double id_value;
     if (get_number_property(json, "id", &id_value) != 0 ||
-        id_value < 0 || id_value != floor(id_value) || id_value > (double)UINT64_MAX) {
+        id_value < 0 || id_value != floor(id_value) || id_value >= 18446744073709551616.0) {
         mcp_json_destroy(json);
         return -1;
     }
-- 
2.43.0


From d5ebaa10046730f4ae8feaf3be6345b6b24bf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:30 +0000
Subject: [PATCH 020/120] fix: synchronise the template cache

The cache of parsed templates, its LRU order and its statistics were shared by all threads without a lock, so a template could be evicted while another thread was matching against it.
---
 src/common/mcp_template_optimized.c | 76 +++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 6b99d1d..1c5db0f 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -4,11 +4,32 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Forward declaration of internal functions from mcp_template.c
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
 
+/**
+ * @brief Lock protecting the global template cache and its statistics.
+ *
+ * Cached templates may be evicted by any thread, so the lock is held for as
+ * long as a cached template is in use.
+ */
+#ifdef _WIN32
+static SRWLOCK g_template_cache_lock = SRWLOCK_INIT;
+#define TEMPLATE_CACHE_LOCK() AcquireSRWLockExclusive(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() ReleaseSRWLockExclusive(&g_template_cache_lock)
+#else
+static pthread_mutex_t g_template_cache_lock = PTHREAD_MUTEX_INITIALIZER;
+#define TEMPLATE_CACHE_LOCK() pthread_mutex_lock(&g_template_cache_lock)
+#define TEMPLATE_CACHE_UNLOCK() pthread_mutex_unlock(&g_template_cache_lock)
+#endif
+
 /**
  * @brief Structure to hold a cached template
  */
@@ -394,11 +415,7 @@ static int validate_param_value(const char* value, const mcp_template_param_vali
  * @param template The template pattern to match against
  * @return 1 if the URI matches the template pattern, 0 otherwise
  */
-int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
-    if (uri == NULL || template_uri == NULL) {
-        return 0;
-    }
-
+static int matches_cached(const char* uri, const char* template_uri) {
     mcp_log_debug("Matching URI '%s' against template '%s'", uri, template_uri);
 
     // Get or create cached template
@@ -488,11 +505,7 @@ int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
  * @param template The template pattern to match against
  * @return A newly created JSON object containing parameter values, or NULL on error
  */
-mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
-    if (uri == NULL || template_uri == NULL) {
-        return NULL;
-    }
-
+static mcp_json_t* extract_params_cached(const char* uri, const char* template_uri) {
     // Get or create cached template
     mcp_cached_template_t* cached = mcp_template_cache_find(template_uri);
     if (cached == NULL) {
@@ -703,6 +716,42 @@ mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* t
     return params;
 }
 
+/**
+ * @brief Optimized version of mcp_template_matches that uses a template cache
+ *
+ * @param uri The URI to check
+ * @param template_uri The template pattern to match against
+ * @return 1 if the URI matches the template pattern, 0 otherwise
+ */
+int mcp_template_matches_optimized(const char* uri, const char* template_uri) {
+    if (uri == NULL || template_uri == NULL) {
+        return 0;
+    }
+
+    TEMPLATE_CACHE_LOCK();
+    int result = matches_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return result;
+}
+
+/**
+ * @brief Optimized version of mcp_template_extract_params that uses a template cache
+ *
+ * @param uri The URI to extract parameters from
+ * @param template_uri The template pattern to match against
+ * @return A newly created JSON object containing parameter values, or NULL on error
+ */
+mcp_json_t* mcp_template_extract_params_optimized(const char* uri, const char* template_uri) {
+    if (uri == NULL || template_uri == NULL) {
+        return NULL;
+    }
+
+    TEMPLATE_CACHE_LOCK();
+    mcp_json_t* params = extract_params_cached(uri, template_uri);
+    TEMPLATE_CACHE_UNLOCK();
+    return params;
+}
+
 /**
  * @brief Get statistics about the template cache
  *
@@ -721,12 +770,14 @@ void mcp_template_cache_get_stats(
     size_t* cache_size,
     size_t* max_cache_size
 ) {
+    TEMPLATE_CACHE_LOCK();
     if (hits) *hits = g_cache_stats.hits;
     if (misses) *misses = g_cache_stats.misses;
     if (evictions) *evictions = g_cache_stats.evictions;
     if (total_lookups) *total_lookups = g_cache_stats.total_lookups;
     if (cache_size) *cache_size = g_template_cache_count;
     if (max_cache_size) *max_cache_size = MAX_CACHED_TEMPLATES;
+    TEMPLATE_CACHE_UNLOCK();
 }
 
 /**
@@ -736,7 +787,10 @@ void mcp_template_cache_get_stats(
  * to free all cached templates.
  */
 void mcp_template_cache_cleanup(void) {
+    TEMPLATE_CACHE_LOCK();
+
     if (!g_template_cache_initialized) {
+        TEMPLATE_CACHE_UNLOCK();
         return;
     }
 
@@ -753,4 +807,6 @@ void mcp_template_cache_cleanup(void) {
     g_cache_stats.misses = 0;
     g_cache_stats.evictions = 0;
     g_cache_stats.total_lookups = 0;
+
+    TEMPLATE_CACHE_UNLOCK();
 }
-- 
2.43.0


From 46fc5e0c4b70862a7df1527c6d1d3fec83f1d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:05 +0000
Subject: [PATCH 021/120] fix: initialise the metrics once when first requests
 arrive together

The collector kept its own unsynchronised flag and the initialisation itself was not guarded, although documented as thread-safe.
---
 src/common/mcp_performance_metrics.c   | 31 ++++++++++++++++++++++----
 src/server/mcp_performance_collector.c | 13 ++++-------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/common/mcp_performance_metrics.c b/src/common/mcp_performance_metrics.c
index f5f7eb5..6dbc109 100644
--- a/src/common/mcp_performance_metrics.c
+++ b/src/common/mcp_performance_metrics.c
@@ -7,6 +7,11 @@
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
+#ifdef _WIN32
+#include <windows.h>
+#else
+#include <pthread.h>
+#endif
 
 // Define TIME_UTC for Windows if not already defined
 #ifdef _WIN32
@@ -18,7 +23,18 @@
 // Global metrics instance
 static mcp_performance_metrics_t g_metrics;
 static mcp_mutex_t* g_metrics_mutex = NULL;
-static bool g_initialized = false;
+static MCP_ATOMIC_TYPE(int64_t) g_initialized = 0;
+
+// Serializes initialization
+#ifdef _WIN32
+static SRWLOCK g_init_lock = SRWLOCK_INIT;
+#define METRICS_INIT_LOCK() AcquireSRWLockExclusive(&g_init_lock)
+#define METRICS_INIT_UNLOCK() ReleaseSRWLockExclusive(&g_init_lock)
+#else
+static pthread_mutex_t g_init_lock = PTHREAD_MUTEX_INITIALIZER;
+#define METRICS_INIT_LOCK() pthread_mutex_lock(&g_init_lock)
+#define METRICS_INIT_UNLOCK() pthread_mutex_unlock(&g_init_lock)
+#endif
 
 // Constants for time conversion
 #define MICROSECONDS_PER_SECOND 1000000ULL
@@ -89,13 +105,19 @@ static inline uint64_t timespec_diff_us(const struct timespec* start, const stru
 int mcp_performance_metrics_init(void) {
     // Fast path for already initialized
     if (g_initialized) {
-        mcp_log_debug("Performance metrics system already initialized");
+        return 0;
+    }
+
+    METRICS_INIT_LOCK();
+    if (g_initialized) {
+        METRICS_INIT_UNLOCK();
         return 0;
     }
 
     // Initialize mutex for thread safety
     g_metrics_mutex = mcp_mutex_create();
     if (!g_metrics_mutex) {
+        METRICS_INIT_UNLOCK();
         mcp_log_error("Failed to create performance metrics mutex");
         return -1;
     }
@@ -111,7 +133,8 @@ int mcp_performance_metrics_init(void) {
     MCP_ATOMIC_STORE(g_metrics.start_time, current_time);
     MCP_ATOMIC_STORE(g_metrics.last_reset_time, current_time);
 
-    g_initialized = true;
+    MCP_ATOMIC_STORE(g_initialized, 1);
+    METRICS_INIT_UNLOCK();
     mcp_log_info("Performance metrics system initialized successfully");
     return 0;
 }
@@ -123,7 +146,7 @@ void mcp_performance_metrics_shutdown(void) {
 
     mcp_mutex_destroy(g_metrics_mutex);
     g_metrics_mutex = NULL;
-    g_initialized = false;
+    MCP_ATOMIC_STORE(g_initialized, 0);
     mcp_log_info("Performance metrics system shutdown");
 }
 
diff --git a/src/server/mcp_performance_collector.c b/src/server/mcp_performance_collector.c
index 9134e32..a00f99b 100644
--- a/src/server/mcp_performance_collector.c
+++ b/src/server/mcp_performance_collector.c
@@ -5,15 +5,10 @@
 
 // Helper function to initialize performance metrics collection
 static int init_performance_metrics(void) {
-    static bool initialized = false;
-
-    if (!initialized) {
-        if (mcp_performance_metrics_init() != 0) {
-            mcp_log_error("Failed to initialize performance metrics");
-            return -1;
-        }
-        initialized = true;
-        mcp_log_info("Performance metrics collection initialized");
+    // Thread-safe, and a no-op once initialized
+    if (mcp_performance_metrics_init() != 0) {
+        mcp_log_error("Failed to initialize performance metrics");
+        return -1;
     }
 
     return 0;
-- 
2.43.0


From f2288cfca450b65daec5141935ae7a0c7e7226e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:45 +0000
Subject: [PATCH 022/120] fix: honour optional typed parameters and long
 patterns in templates

The documented form {name:type?} was parsed as a required parameter, a pattern was truncated to 23 characters so values not matching it were accepted, and overlong names were cut so that two parameters could collide.
---
 src/common/mcp_template.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 8cf91ba..c892574 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -119,16 +119,15 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
     char* name_end = strpbrk(spec_copy, ":=?");
     if (name_end == NULL) {
         // Simple parameter with no type or default
-        strncpy(name, spec_copy, name_size - 1);
-        name[name_size - 1] = '\0';
-        free(spec_copy);
-        return 0;
+        name_end = spec_copy + strlen(spec_copy);
     }
 
     // Extract the name
     size_t name_len = name_end - spec_copy;
     if (name_len >= name_size) {
-        name_len = name_size - 1;
+        mcp_log_error("Template parameter name too long: '%s'", spec_copy);
+        free(spec_copy);
+        return -1;
     }
     memcpy(name, spec_copy, name_len);
     name[name_len] = '\0';
@@ -158,13 +157,9 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
         }
 
         // Extract the type
-        char type_str[32] = {0};
-        size_t type_len = type_end - name_end;
-        if (type_len >= sizeof(type_str)) {
-            type_len = sizeof(type_str) - 1;
-        }
-        memcpy(type_str, name_end, type_len);
-        type_str[type_len] = '\0';
+        char type_end_char = *type_end;
+        const char* type_str = name_end;
+        *type_end = '\0';
 
         // Set the type
         if (strcmp(type_str, "int") == 0) {
@@ -190,7 +185,14 @@ int mcp_template_parse_param_spec(const char* param_spec, char* name, size_t nam
             // Keep the default range values initialized earlier
         }
 
+        *type_end = type_end_char;
         name_end = type_end;
+
+        // Check for optional parameter ("name:type?")
+        if (*name_end == '?') {
+            validation->required = false;
+            name_end++;
+        }
     }
 
     // Check for default value
-- 
2.43.0


From 1a91cc2d1bdbd6499a65dd31835bbe3bd4903dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:20 +0000
Subject: [PATCH 023/120] fix: expand numbers exactly and booleans in templates

---
 src/common/mcp_template.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index c892574..5a40641 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -5,6 +5,7 @@
 #include <stdbool.h>
 #include <limits.h>
 #include <float.h>
+#include <math.h>
 #include "mcp_template.h"
 #include "mcp_string_utils.h"
 #include "mcp_log.h"
@@ -394,6 +395,8 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
  * @param param_name Buffer to store the parameter name
  * @param param_name_size Size of the param_name buffer
  * @param params JSON object containing parameter values
+ * @param number_str Buffer for the text of a numeric value
+ * @param number_str_size Size of the number_str buffer
  * @param param_value_out Pointer to store the parameter value
  * @param validation Validation structure to fill
  * @return 0 on success, -1 on error
@@ -403,6 +406,8 @@ static int process_template_param(
     char* param_name,
     size_t param_name_size,
     const mcp_json_t* params,
+    char* number_str,
+    size_t number_str_size,
     const char** param_value_out,
     mcp_template_param_validation_t* validation
 ) {
@@ -424,20 +429,30 @@ static int process_template_param(
     }
     // Handle number values by converting to string
     else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_NUMBER) {
-        // Convert number to string using a static buffer
-        static char number_str[64]; // Should be enough for any reasonable number
         double number_value;
         if (mcp_json_get_number(value_node, &number_value) == 0) {
             // Format as integer if it's a whole number
-            if (number_value == (int)number_value) {
-                snprintf(number_str, sizeof(number_str), "%d", (int)number_value);
+            if (fabs(number_value) < 1e15 && number_value == floor(number_value)) {
+                snprintf(number_str, number_str_size, "%.0f", number_value);
             } else {
-                snprintf(number_str, sizeof(number_str), "%g", number_value);
+                // Use as many digits as needed to get the same number back
+                snprintf(number_str, number_str_size, "%.15g", number_value);
+                if (strtod(number_str, NULL) != number_value) {
+                    snprintf(number_str, number_str_size, "%.17g", number_value);
+                }
             }
             param_value = number_str;
             param_found = true;
         }
     }
+    // Handle boolean values
+    else if (value_node != NULL && mcp_json_get_type(value_node) == MCP_JSON_BOOLEAN) {
+        bool bool_value;
+        if (mcp_json_get_boolean(value_node, &bool_value) == 0) {
+            param_value = bool_value ? "true" : "false";
+            param_found = true;
+        }
+    }
 
     // Handle missing parameters
     if (!param_found) {
@@ -510,10 +525,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
@@ -560,10 +576,11 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
             char param_name[128];
             mcp_template_param_validation_t validation;
             const char* param_value = NULL;
+            char number_str[64]; // Should be enough for any reasonable number
 
             int result = process_template_param(
                 param_spec, param_name, sizeof(param_name),
-                params, &param_value, &validation
+                params, number_str, sizeof(number_str), &param_value, &validation
             );
 
             if (result != 0) {
-- 
2.43.0


From f1f413932f5060ccde6945d41e55964ba4dff74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:50 +0000
Subject: [PATCH 024/120] fix: make plain and cached template matching agree
 with extraction

Both matchers now use the same rule for where a parameter ends, the same validation and the same conversion, and matching succeeds exactly when extraction does.
---
 src/common/mcp_template.c           | 393 +++++++++++-----------------
 src/common/mcp_template_optimized.c | 227 ++--------------
 2 files changed, 170 insertions(+), 450 deletions(-)

diff --git a/src/common/mcp_template.c b/src/common/mcp_template.c
index 5a40641..2fabcc6 100644
--- a/src/common/mcp_template.c
+++ b/src/common/mcp_template.c
@@ -10,6 +10,9 @@
 #include "mcp_string_utils.h"
 #include "mcp_log.h"
 
+int mcp_template_check_value(const char* value, const mcp_template_param_validation_t* validation);
+int mcp_template_add_param(mcp_json_t* params, const char* name, const char* value, const mcp_template_param_validation_t* validation);
+
 /**
  * @brief Initializes a parameter validation structure.
  *
@@ -268,14 +271,14 @@ int mcp_template_validate_param(const char* value, const mcp_template_param_vali
             // Check if the value is a valid float
             char* endptr;
             float float_val = strtof(value, &endptr);
-            if (*endptr != '\0') {
+            if (endptr == value || *endptr != '\0') {
                 // Not a valid float
                 mcp_log_debug("Float validation failed: '%s' is not a valid float", value);
                 return 0;
             }
 
             // Check range
-            if (float_val < validation->range.float_range.min || float_val > validation->range.float_range.max) {
+            if (!(float_val >= validation->range.float_range.min && float_val <= validation->range.float_range.max)) {
                 mcp_log_debug("Float range validation failed: %f not in range [%f, %f]",
                              float_val, validation->range.float_range.min, validation->range.float_range.max);
                 return 0;
@@ -470,7 +473,7 @@ static int process_template_param(
     }
 
     // Validate parameter value
-    if (param_value != NULL && !mcp_template_validate_param(param_value, validation)) {
+    if (!mcp_template_check_value(param_value, validation)) {
         // Parameter value is invalid
         mcp_log_warn("Template parameter '%s' value '%s' is invalid", param_name, param_value);
         return -1;
@@ -610,288 +613,198 @@ char* mcp_template_expand(const char* template, const mcp_json_t* params) {
 }
 
 /**
- * @brief Checks if a URI matches a template pattern.
+ * @brief Checks a value found in a URI (or about to be put into one).
  *
- * This function determines if a URI could have been generated from a template.
- * It doesn't extract parameter values, just checks if the pattern matches.
- * It supports advanced template features like optional parameters and typed parameters.
+ * An empty value stands for an omitted parameter.
  *
- * @param uri The URI to check
- * @param template The template pattern to match against
- * @return 1 if the URI matches the template pattern, 0 otherwise
+ * @return 1 if the value is acceptable, 0 otherwise
  */
-int mcp_template_matches(const char* uri, const char* template) {
-    if (uri == NULL || template == NULL) {
-        return 0;
+int mcp_template_check_value(const char* value, const mcp_template_param_validation_t* validation) {
+    if (value[0] == '\0') {
+        return !validation->required;
     }
+    return mcp_template_validate_param(value, validation);
+}
 
-    mcp_log_debug("Matching URI '%s' against template '%s'", uri, template);
+/**
+ * @brief Adds a parameter to a JSON object, converting its text to its type.
+ *
+ * @return 0 on success, -1 on error
+ */
+int mcp_template_add_param(mcp_json_t* params, const char* name, const char* value, const mcp_template_param_validation_t* validation) {
+    mcp_template_param_type_t type = validation->type;
+
+    // An omitted number or boolean has its default value, if there is one
+    if (value[0] == '\0' && (type == MCP_TEMPLATE_PARAM_TYPE_INT || type == MCP_TEMPLATE_PARAM_TYPE_FLOAT ||
+                            type == MCP_TEMPLATE_PARAM_TYPE_BOOL)) {
+        if (validation->default_value != NULL && validation->default_value[0] != '\0') {
+            value = validation->default_value;
+        } else {
+            type = MCP_TEMPLATE_PARAM_TYPE_STRING;
+        }
+    }
+
+    mcp_json_t* value_node = NULL;
+    switch (type) {
+        case MCP_TEMPLATE_PARAM_TYPE_INT:
+            value_node = mcp_json_number_create((double)strtol(value, NULL, 10));
+            break;
+        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
+            value_node = mcp_json_number_create(strtod(value, NULL));
+            break;
+        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
+            value_node = mcp_json_boolean_create(strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
+            break;
+        default:
+            value_node = mcp_json_string_create(value);
+            break;
+    }
 
+    if (value_node == NULL) {
+        return -1;
+    }
+    if (mcp_json_object_set_property(params, name, value_node) != 0) {
+        mcp_json_destroy(value_node);
+        return -1;
+    }
+    return 0;
+}
+
+/**
+ * @brief Matches a URI against a template and optionally collects the parameters.
+ *
+ * A parameter extends to the first occurrence of the literal text that follows
+ * it in the template, or to the end of the URI if none follows. If that text
+ * does not occur, an optional parameter is skipped together with it.
+ *
+ * @param uri The URI to check
+ * @param template The template pattern to match against
+ * @param params JSON object to add the parameter values to, or NULL
+ * @return 1 if the URI matches the template pattern, 0 otherwise
+ */
+static int match_template(const char* uri, const char* template, mcp_json_t* params) {
     const char* u = uri;
     const char* t = template;
 
     while (*t) {
-        if (*t == '{') {
-            // Found a placeholder start
-            const char* end = strchr(t, '}');
-            if (end == NULL) {
-                // Malformed template - missing closing brace
-                mcp_log_debug("Malformed template - missing closing brace");
+        if (*t != '{') {
+            // Static part must match exactly
+            if (*u != *t) {
+                mcp_log_debug("Characters don't match: '%c' != '%c'", *u, *t);
                 return 0;
             }
+            u++;
+            t++;
+            continue;
+        }
 
-            // Extract parameter specification
-            size_t param_spec_len = end - t - 1;
-            char param_spec[256];
-            if (param_spec_len >= sizeof(param_spec)) {
-                // Parameter spec too long
-                mcp_log_debug("Parameter spec too long");
-                return 0;
-            }
-            memcpy(param_spec, t + 1, param_spec_len);
-            param_spec[param_spec_len] = '\0';
-
-            // Parse parameter specification
-            char param_name[128];
-            mcp_template_param_validation_t validation;
-            if (mcp_template_parse_param_spec(param_spec, param_name, sizeof(param_name), &validation) != 0) {
-                // Failed to parse parameter specification
-                mcp_log_debug("Failed to parse parameter specification: %s", param_spec);
-                mcp_template_free_validation(&validation);
-                return 0;
-            }
+        // Find the end of the placeholder
+        const char* end = strchr(t, '}');
+        if (end == NULL) {
+            mcp_log_debug("Malformed template - missing closing brace");
+            return 0;
+        }
 
-            mcp_log_debug("Parsed parameter: name='%s', type=%d, required=%d",
-                         param_name, validation.type, validation.required);
+        // Extract the parameter specification
+        size_t param_spec_len = end - t - 1;
+        char param_spec[256];
+        if (param_spec_len >= sizeof(param_spec)) {
+            mcp_log_debug("Parameter spec too long");
+            return 0;
+        }
+        memcpy(param_spec, t + 1, param_spec_len);
+        param_spec[param_spec_len] = '\0';
 
-            // Skip to the next static part of the template
-            t = end + 1;
+        char param_name[128];
+        mcp_template_param_validation_t validation;
+        if (mcp_template_parse_param_spec(param_spec, param_name, sizeof(param_name), &validation) != 0) {
+            mcp_log_debug("Failed to parse parameter specification: %s", param_spec);
+            mcp_template_free_validation(&validation);
+            return 0;
+        }
 
-            // Find the next static character in the template
-            char next_static = *t;
-            if (next_static == '\0') {
-                // This placeholder is at the end of the template
-                // The rest of the URI can be anything
-                mcp_log_debug("Parameter '%s' is at the end of the template", param_name);
-                mcp_template_free_validation(&validation);
-                return 1;
+        // Find the static part following the parameter in the URI
+        t = end + 1;
+        size_t next_static_len = strcspn(t, "{");
+        const char* value_end = u;
+        if (next_static_len == 0) {
+            value_end = u + strlen(u);
+        } else {
+            while (*value_end && strncmp(value_end, t, next_static_len) != 0) {
+                value_end++;
             }
+        }
 
-            // Find the next occurrence of the static character in the URI
-            const char* next_static_in_uri = strchr(u, next_static);
-            if (next_static_in_uri == NULL) {
-                // Static character not found in URI
-                if (!validation.required) {
-                    // If the parameter is optional, we can skip it
-                    // and continue matching from the next static character
-                    mcp_log_debug("Optional parameter '%s' not found in URI, skipping", param_name);
-                    mcp_template_free_validation(&validation);
-                    t = t - 1; // Back up to the static character
-                    continue;
-                }
+        if (next_static_len > 0 && *value_end == '\0') {
+            if (validation.required) {
                 mcp_log_debug("Required parameter '%s' not found in URI", param_name);
                 mcp_template_free_validation(&validation);
                 return 0;
             }
-
-            // Extract the parameter value from the URI
-            size_t value_len = next_static_in_uri - u;
-            char value[256]; // Use stack buffer instead of malloc
-            if (value_len >= sizeof(value)) {
-                // Value too long
-                mcp_log_debug("Parameter '%s' value too long", param_name);
+            mcp_log_debug("Optional parameter '%s' not found in URI, skipping", param_name);
+            t += next_static_len;
+            const char* omitted = validation.default_value != NULL ? validation.default_value : "";
+            if (params != NULL && mcp_template_add_param(params, param_name, omitted, &validation) != 0) {
                 mcp_template_free_validation(&validation);
                 return 0;
             }
-            memcpy(value, u, value_len);
-            value[value_len] = '\0';
-
-            mcp_log_debug("Extracted parameter '%s' value: '%s'", param_name, value);
+            mcp_template_free_validation(&validation);
+            continue;
+        }
 
-            // Validate the parameter value
-            int valid = mcp_template_validate_param(value, &validation);
+        size_t value_len = value_end - u;
+        char value[256]; // Use stack buffer instead of malloc
+        if (value_len >= sizeof(value)) {
+            mcp_log_debug("Parameter '%s' value too long", param_name);
             mcp_template_free_validation(&validation);
+            return 0;
+        }
+        memcpy(value, u, value_len);
+        value[value_len] = '\0';
+        u = value_end;
 
-            if (!valid) {
-                // Parameter value is invalid
-                mcp_log_debug("Parameter '%s' value '%s' is invalid", param_name, value);
-                return 0;
-            }
+        if (!mcp_template_check_value(value, &validation)) {
+            mcp_log_debug("Parameter '%s' value '%s' is invalid", param_name, value);
+            mcp_template_free_validation(&validation);
+            return 0;
+        }
 
-            // Skip to the static character in the URI
-            u = next_static_in_uri;
-        } else if (*u == *t) {
-            // Characters match
-            u++;
-            t++;
-        } else {
-            // Characters don't match
-            mcp_log_debug("Characters don't match: '%c' != '%c'", *u, *t);
+        if (params != NULL && mcp_template_add_param(params, param_name, value, &validation) != 0) {
+            mcp_template_free_validation(&validation);
             return 0;
         }
+        mcp_template_free_validation(&validation);
     }
 
-    // If we've consumed the entire template and URI, it's a match
-    mcp_log_debug("URI match result: %d", (*u == '\0'));
-    return (*u == '\0');
+    // Check if we've consumed the entire URI
+    return *u == '\0';
+}
+
+int mcp_template_matches(const char* uri, const char* template) {
+    if (uri == NULL || template == NULL) {
+        return 0;
+    }
+
+    mcp_log_debug("Matching URI '%s' against template '%s'", uri, template);
+    int result = match_template(uri, template, NULL);
+    mcp_log_debug("URI match result: %d", result);
+    return result;
 }
 
-/**
- * @brief Extracts parameter values from a URI based on a template pattern.
- *
- * This function extracts the values of parameters from a URI that matches a template.
- * It returns a JSON object containing the parameter values.
- * It supports advanced template features like optional parameters and typed parameters.
- *
- * @param uri The URI to extract parameters from
- * @param template The template pattern to match against
- * @return A newly created JSON object containing parameter values, or NULL on error
- */
 mcp_json_t* mcp_template_extract_params(const char* uri, const char* template) {
     if (uri == NULL || template == NULL) {
         return NULL;
     }
 
-    // Create a JSON object to hold parameter values
+    // Create a JSON object to hold the parameters
     mcp_json_t* params = mcp_json_object_create();
     if (params == NULL) {
         return NULL;
     }
 
-    const char* u = uri;
-    const char* t = template;
-
-    while (*t) {
-        if (*t == '{') {
-            // Found a placeholder start
-            const char* end = strchr(t, '}');
-            if (end == NULL) {
-                // Malformed template - missing closing brace
-                mcp_json_destroy(params);
-                return NULL;
-            }
-
-            // Extract parameter specification
-            size_t param_spec_len = end - t - 1;
-            char param_spec[256];
-            if (param_spec_len >= sizeof(param_spec)) {
-                // Parameter spec too long
-                mcp_json_destroy(params);
-                return NULL;
-            }
-            memcpy(param_spec, t + 1, param_spec_len);
-            param_spec[param_spec_len] = '\0';
-
-            // Parse parameter specification
-            char param_name[128];
-            mcp_template_param_validation_t validation;
-            if (mcp_template_parse_param_spec(param_spec, param_name, sizeof(param_name), &validation) != 0) {
-                // Failed to parse parameter specification
-                mcp_json_destroy(params);
-                return NULL;
-            }
-
-            // Find the end of the parameter value in the URI
-            const char* value_start = u;
-            const char* value_end = NULL;
-
-            // The value ends at the next static part of the template
-            t = end + 1;
-            if (*t == '\0') {
-                // This placeholder is at the end of the template
-                // The value is the rest of the URI
-                value_end = value_start + strlen(value_start);
-            } else {
-                // Find the next static character in the URI
-                char next_static = *t;
-                const char* next_static_in_uri = strchr(u, next_static);
-                if (next_static_in_uri == NULL) {
-                    // Static character not found in URI
-                    if (!validation.required) {
-                        // If the parameter is optional, we can skip it
-                        // and continue matching from the next static character
-                        if (validation.default_value != NULL) {
-                            // Add default value to JSON object
-                            mcp_json_t* value_node = mcp_json_string_create(validation.default_value);
-                            if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
-                                mcp_template_free_validation(&validation);
-                                mcp_json_destroy(params);
-                                return NULL;
-                            }
-                        }
-                        mcp_template_free_validation(&validation);
-                        continue;
-                    }
-                    mcp_template_free_validation(&validation);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-                value_end = next_static_in_uri;
-                u = next_static_in_uri;
-            }
-
-            // Extract parameter value
-            size_t value_len = value_end - value_start;
-            char value[256]; // Use stack buffer instead of malloc
-            if (value_len >= sizeof(value)) {
-                // Value too long
-                mcp_template_free_validation(&validation);
-                mcp_json_destroy(params);
-                return NULL;
-            }
-            memcpy(value, value_start, value_len);
-            value[value_len] = '\0';
-
-            // Validate parameter value
-            if (!mcp_template_validate_param(value, &validation)) {
-                // Parameter value is invalid
-                mcp_template_free_validation(&validation);
-                mcp_json_destroy(params);
-                return NULL;
-            }
-
-            // Convert value to appropriate type based on validation
-            mcp_json_t* value_node = NULL;
-            switch (validation.type) {
-                case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                    long int_val = strtol(value, NULL, 10);
-                    value_node = mcp_json_number_create((double)int_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                    float float_val = strtof(value, NULL);
-                    value_node = mcp_json_number_create((double)float_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_BOOL: {
-                    bool bool_val = (strcmp(value, "true") == 0 || strcmp(value, "1") == 0);
-                    value_node = mcp_json_boolean_create(bool_val);
-                    break;
-                }
-                case MCP_TEMPLATE_PARAM_TYPE_STRING:
-                case MCP_TEMPLATE_PARAM_TYPE_CUSTOM:
-                default:
-                    value_node = mcp_json_string_create(value);
-                    break;
-            }
-
-            // Add parameter to JSON object
-            if (value_node == NULL || mcp_json_object_set_property(params, param_name, value_node) != 0) {
-                mcp_template_free_validation(&validation);
-                mcp_json_destroy(params);
-                return NULL;
-            }
-
-            mcp_template_free_validation(&validation);
-        } else if (*u == *t) {
-            // Characters match
-            u++;
-            t++;
-        } else {
-            // Characters don't match
-            mcp_json_destroy(params);
-            return NULL;
-        }
+    if (!match_template(uri, template, params)) {
+        mcp_json_destroy(params);
+        return NULL;
     }
 
     return params;
diff --git a/src/common/mcp_template_optimized.c b/src/common/mcp_template_optimized.c
index 1c5db0f..6f7518f 100644
--- a/src/common/mcp_template_optimized.c
+++ b/src/common/mcp_template_optimized.c
@@ -11,6 +11,8 @@
 #endif
 
 // Forward declaration of internal functions from mcp_template.c
+extern int mcp_template_check_value(const char* value, const mcp_template_param_validation_t* validation);
+extern int mcp_template_add_param(mcp_json_t* params, const char* name, const char* value, const mcp_template_param_validation_t* validation);
 extern void mcp_template_free_validation(mcp_template_param_validation_t* validation);
 extern int mcp_template_parse_param_spec(const char* param_spec, char* param_name, size_t param_name_size, mcp_template_param_validation_t* validation);
 
@@ -283,6 +285,10 @@ static mcp_cached_template_t* mcp_template_cache_add(const char* template_uri) {
     }
     cached->static_part_lengths[static_index] = strlen(static_start);
 
+    // A brace inside a placeholder does not start another parameter
+    cached->param_count = param_index;
+    cached->static_count = param_index + 1;
+
     // Add to cache at the front (most recently used position)
     // First, make room at the front
     if (g_template_cache_count > 0) {
@@ -319,91 +325,6 @@ static const char* find_next_static_part(const char* uri, const char* static_par
     return strstr(uri, static_part);
 }
 
-/**
- * @brief Improved pattern matching with * wildcard
- *
- * This function matches a value against a pattern that can contain * wildcards.
- * It supports patterns like:
- * - "abc*" - matches anything that starts with "abc"
- * - "*abc" - matches anything that ends with "abc"
- * - "a*c" - matches anything that starts with "a" and ends with "c"
- *
- * @param value The value to match against the pattern
- * @param pattern The pattern to match
- * @return 1 if the value matches the pattern, 0 otherwise
- */
-static int pattern_match(const char* value, const char* pattern) {
-    if (value == NULL || pattern == NULL) {
-        return 0;
-    }
-
-    mcp_log_debug("Validating '%s' against pattern '%s'", value, pattern);
-
-    // If the pattern ends with *, match anything that starts with the pattern prefix
-    size_t pattern_len = strlen(pattern);
-    if (pattern_len > 0 && pattern[pattern_len - 1] == '*') {
-        // Match prefix
-        size_t prefix_len = pattern_len - 1;
-        mcp_log_debug("Pattern ends with *, match anything that starts with prefix");
-        return strncmp(value, pattern, prefix_len) == 0;
-    }
-
-    // If the pattern starts with *, match anything that ends with the pattern suffix
-    if (pattern_len > 0 && pattern[0] == '*') {
-        // Match suffix
-        size_t value_len = strlen(value);
-        size_t suffix_len = pattern_len - 1;
-        if (value_len < suffix_len) {
-            return 0;
-        }
-        return strcmp(value + (value_len - suffix_len), pattern + 1) == 0;
-    }
-
-    // If the pattern contains * in the middle, split and match both sides
-    const char* star = strchr(pattern, '*');
-    if (star != NULL) {
-        // Split the pattern at the *
-        size_t prefix_len = star - pattern;
-        const char* suffix = star + 1;
-        size_t suffix_len = strlen(suffix);
-        size_t value_len = strlen(value);
-
-        // Match prefix
-        if (strncmp(value, pattern, prefix_len) != 0) {
-            return 0;
-        }
-
-        // Match suffix
-        if (value_len < prefix_len + suffix_len) {
-            return 0;
-        }
-        return strcmp(value + (value_len - suffix_len), suffix) == 0;
-    }
-
-    // No wildcards, exact match
-    return strcmp(value, pattern) == 0;
-}
-
-/**
- * @brief Validate a parameter value against a validation spec
- *
- * This function delegates to mcp_template_validate_param in mcp_template.c
- * to ensure consistent validation behavior between the two implementations.
- *
- * @param value The parameter value to validate
- * @param validation The validation spec
- * @return 1 if the value is valid, 0 otherwise
- */
-static int validate_param_value(const char* value, const mcp_template_param_validation_t* validation) {
-    // Empty value is only valid for optional parameters
-    if (value != NULL && value[0] == '\0') {
-        return validation != NULL && !validation->required;
-    }
-
-    // Delegate to the standard validation function
-    return mcp_template_validate_param(value, validation);
-}
-
 /**
  * @brief Optimized template matching function
  *
@@ -479,7 +400,7 @@ static int matches_cached(const char* uri, const char* template_uri) {
         mcp_log_debug("Extracted parameter '%s' value: '%s'", cached->param_names[i], param_value);
 
         // Validate the parameter value
-        if (!validate_param_value(param_value, &cached->validations[i])) {
+        if (!mcp_template_check_value(param_value, &cached->validations[i])) {
             mcp_log_debug("Parameter '%s' value '%s' is invalid for type %d",
                          cached->param_names[i], param_value, cached->validations[i].type);
             return 0;
@@ -551,38 +472,10 @@ static mcp_json_t* extract_params_cached(const char* uri, const char* template_u
         if (next_static_in_uri == NULL) {
             if (!cached->validations[i].required) {
                 // Optional parameter, use default value if available
-                if (cached->validations[i].default_value != NULL) {
-                    // Add the default value to the params
-                    mcp_json_t* value = NULL;
-
-                    // Create the appropriate JSON value based on the parameter type
-                    switch (cached->validations[i].type) {
-                        case MCP_TEMPLATE_PARAM_TYPE_INT:
-                            value = mcp_json_number_create(atoi(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_FLOAT:
-                            value = mcp_json_number_create(atof(cached->validations[i].default_value));
-                            break;
-                        case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                            value = mcp_json_boolean_create(
-                                strcmp(cached->validations[i].default_value, "true") == 0 ||
-                                strcmp(cached->validations[i].default_value, "1") == 0
-                            );
-                            break;
-                        default:
-                            value = mcp_json_string_create(cached->validations[i].default_value);
-                            break;
-                    }
-
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
-                } else {
-                    // No default value, add an empty string
-                    mcp_json_t* value = mcp_json_string_create("");
-                    if (value != NULL) {
-                        mcp_json_object_set_property(params, cached->param_names[i], value);
-                    }
+                const char* omitted = cached->validations[i].default_value != NULL ? cached->validations[i].default_value : "";
+                if (mcp_template_add_param(params, cached->param_names[i], omitted, &cached->validations[i]) != 0) {
+                    mcp_json_destroy(params);
+                    return NULL;
                 }
 
                 // Skip this parameter
@@ -605,104 +498,18 @@ static mcp_json_t* extract_params_cached(const char* uri, const char* template_u
         memcpy(param_value, u, param_len);
         param_value[param_len] = '\0';
 
-        // Create the appropriate JSON value based on the parameter type
-        mcp_json_t* value = NULL;
-
-        switch (cached->validations[i].type) {
-            case MCP_TEMPLATE_PARAM_TYPE_INT: {
-                // Validate that the string is a valid integer
-                char* endptr;
-                long int_val = strtol(param_value, &endptr, 10);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Integer validation failed: '%s' is not a valid integer (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (int_val < cached->validations[i].range.int_range.min || int_val > cached->validations[i].range.int_range.max) {
-                    mcp_log_debug("Integer range validation failed: %ld not in range [%d, %d]",
-                                 int_val, cached->validations[i].range.int_range.min, cached->validations[i].range.int_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)int_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_FLOAT: {
-                // Validate that the string is a valid float
-                char* endptr;
-                float float_val = strtof(param_value, &endptr);
-
-                // If endptr points to the first character, no conversion was performed
-                if (endptr == param_value) {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (no conversion)", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // If endptr doesn't point to the null terminator, there are invalid characters
-                if (*endptr != '\0') {
-                    mcp_log_debug("Float validation failed: '%s' is not a valid float (invalid chars: '%s')", param_value, endptr);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                // Check range
-                if (float_val < cached->validations[i].range.float_range.min || float_val > cached->validations[i].range.float_range.max) {
-                    mcp_log_debug("Float range validation failed: %f not in range [%f, %f]",
-                                 float_val, cached->validations[i].range.float_range.min, cached->validations[i].range.float_range.max);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_number_create((double)float_val);
-                break;
-            }
-            case MCP_TEMPLATE_PARAM_TYPE_BOOL:
-                // Validate that the string is a valid boolean
-                if (strcmp(param_value, "true") != 0 && strcmp(param_value, "false") != 0 &&
-                    strcmp(param_value, "1") != 0 && strcmp(param_value, "0") != 0) {
-                    mcp_log_debug("Boolean validation failed: '%s' is not a valid boolean", param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_boolean_create(
-                    strcmp(param_value, "true") == 0 ||
-                    strcmp(param_value, "1") == 0
-                );
-                break;
-            default:
-                // For string and custom types, just validate using the standard function
-                if (!validate_param_value(param_value, &cached->validations[i])) {
-                    mcp_log_debug("Parameter '%s' value '%s' is invalid", cached->param_names[i], param_value);
-                    mcp_json_destroy(params);
-                    return NULL;
-                }
-
-                value = mcp_json_string_create(param_value);
-                break;
+        if (!mcp_template_check_value(param_value, &cached->validations[i])) {
+            mcp_log_debug("Parameter '%s' value '%s' is invalid", cached->param_names[i], param_value);
+            mcp_json_destroy(params);
+            return NULL;
         }
 
-        if (value == NULL) {
+        // Add the parameter with the type the template gives it
+        if (mcp_template_add_param(params, cached->param_names[i], param_value, &cached->validations[i]) != 0) {
             mcp_json_destroy(params);
             return NULL;
         }
 
-        // Add the parameter to the JSON object
-        mcp_json_object_set_property(params, cached->param_names[i], value);
-
         // Move past this parameter and static part
         u = next_static_in_uri + next_static_len;
     }
-- 
2.43.0


From 1e24a85b65ebb8a8ba77bceae48dd3eb439dde70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:03 +0000
Subject: [PATCH 025/120] fix: enforce template access lists for requests

The role of the client was never passed to the template rules, a missing role skipped the access list, and a repeated read was answered from the cache before the rules were looked at. A template without an access list requires no role.
---
 src/server/internal/server_template_router.h | 14 ++++
 src/server/mcp_server_handlers.c             |  7 ++
 src/server/mcp_server_template_router.c      | 71 ++++++++++++--------
 src/server/mcp_template_security.c           | 11 +--
 4 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/src/server/internal/server_template_router.h b/src/server/internal/server_template_router.h
index df7de5a..9cef7e2 100644
--- a/src/server/internal/server_template_router.h
+++ b/src/server/internal/server_template_router.h
@@ -20,6 +20,20 @@ int mcp_server_register_template_handler_internal(
     void* user_data
 );
 
+/**
+ * @brief Checks whether the template rules allow a client to read a URI
+ *
+ * @param server The server instance
+ * @param uri The URI to be read
+ * @param auth_context The authentication context of the client
+ * @return MCP_ERROR_NONE if access is allowed (or the URI is not templated), an error code otherwise
+ */
+mcp_error_code_t mcp_server_check_template_access(
+    mcp_server_t* server,
+    const char* uri,
+    const mcp_auth_context_t* auth_context
+);
+
 /**
  * @brief Handles a resource request using template-based routing
  *
diff --git a/src/server/mcp_server_handlers.c b/src/server/mcp_server_handlers.c
index 529734c..28a2d41 100644
--- a/src/server/mcp_server_handlers.c
+++ b/src/server/mcp_server_handlers.c
@@ -438,6 +438,13 @@ char* handle_read_resource_request(mcp_server_t* server, mcp_arena_t* arena, con
     bool fetched_from_handler = false;
     int handler_status = MCP_ERROR_NONE;
 
+    // The template rules apply to cached content as well
+    handler_status = mcp_server_check_template_access(server, uri, auth_context);
+    if (handler_status != MCP_ERROR_NONE) {
+        mcp_json_destroy(params_json);
+        RETURN_ERROR(profile_name, handler_status, "Error processing template resource");
+    }
+
     // 1. Check cache first
     if (server->resource_cache != NULL) {
         PROFILE_START("cache_lookup");
diff --git a/src/server/mcp_server_template_router.c b/src/server/mcp_server_template_router.c
index 3710a5f..ab48b63 100644
--- a/src/server/mcp_server_template_router.c
+++ b/src/server/mcp_server_template_router.c
@@ -224,6 +224,50 @@ mcp_error_code_t template_handler_wrapper(
     );
 }
 
+/**
+ * @brief Checks whether the template rules allow a client to read a URI
+ *
+ * @param server The server instance
+ * @param uri The URI to be read
+ * @param auth_context The authentication context of the client
+ * @return MCP_ERROR_NONE if access is allowed, an error code otherwise
+ */
+mcp_error_code_t mcp_server_check_template_access(
+    mcp_server_t* server,
+    const char* uri,
+    const mcp_auth_context_t* auth_context
+) {
+    // Nothing to check if template security is not enabled
+    if (server->template_security == NULL) {
+        return MCP_ERROR_NONE;
+    }
+
+    // Find a matching template route
+    mcp_json_t* params = NULL;
+    template_route_t* route = mcp_server_find_template_route(server, uri, &params);
+    if (route == NULL) {
+        // Not a templated resource
+        return MCP_ERROR_NONE;
+    }
+
+    mcp_error_code_t result = MCP_ERROR_NONE;
+    const char* user_role = auth_context ? auth_context->identifier : NULL;
+
+    // Check if the parameters are valid
+    if (!mcp_template_security_validate_params(server->template_security, route->template_uri, params)) {
+        mcp_log_info("Parameter validation failed for '%s'", uri);
+        result = MCP_ERROR_INVALID_PARAMS;
+    }
+    // Check if the user has access to the template
+    else if (!mcp_template_security_check_access(server->template_security, route->template_uri, user_role, params)) {
+        mcp_log_info("Access denied to '%s'", uri);
+        result = MCP_ERROR_UNAUTHORIZED;
+    }
+
+    mcp_json_destroy(params);
+    return result;
+}
+
 /**
  * @brief Handles a resource request using template-based routing
  *
@@ -263,33 +307,6 @@ mcp_error_code_t mcp_server_handle_template_resource(
         return MCP_ERROR_RESOURCE_NOT_FOUND;
     }
 
-    // Check security if template security is enabled
-    if (server->template_security != NULL) {
-        // Get the auth context from the server
-        mcp_auth_context_t* auth_context = NULL;
-        // For now, we'll use a simple check without a full auth context
-        // In a real implementation, you would get the auth context from the request
-
-        // Check if the template has access control
-        if (!mcp_template_security_validate_params(server->template_security, route->template_uri, params)) {
-            if (error_message) {
-                *error_message = mcp_strdup("Parameter validation failed");
-            }
-            mcp_json_destroy(params);
-            return MCP_ERROR_INVALID_PARAMS;
-        }
-
-        // Check if the user has access to the template
-        const char* user_role = auth_context ? auth_context->identifier : NULL;
-        if (!mcp_template_security_check_access(server->template_security, route->template_uri, user_role, params)) {
-            if (error_message) {
-                *error_message = mcp_strdup("Access denied");
-            }
-            mcp_json_destroy(params);
-            return MCP_ERROR_UNAUTHORIZED;
-        }
-    }
-
     // Create a context for the template handler
     template_handler_context_t context = {
         .params = params,
diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 152232a..6935214 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -236,16 +236,17 @@ bool mcp_template_security_check_access(
         }
     }
 
-    // If no entry exists, allow access if no user role is required
+    // If no entry exists, no role is required
     if (entry == NULL) {
-        return user_role == NULL;
+        return security->default_validator == NULL ||
+               security->default_validator(template_uri, params, security->default_validator_data);
     }
 
     // Check if the user has the required role
-    if (user_role != NULL && entry->allowed_roles_count > 0) {
+    if (entry->allowed_roles_count > 0) {
         bool role_match = false;
         for (size_t i = 0; i < entry->allowed_roles_count; i++) {
-            if (strcmp(entry->allowed_roles[i], user_role) == 0 ||
+            if ((user_role != NULL && strcmp(entry->allowed_roles[i], user_role) == 0) ||
                 strcmp(entry->allowed_roles[i], "*") == 0) {
                 role_match = true;
                 break;
@@ -254,7 +255,7 @@ bool mcp_template_security_check_access(
 
         if (!role_match) {
             mcp_log_info("Access denied for role '%s' to template '%s'",
-                         user_role, template_uri);
+                         user_role ? user_role : "(none)", template_uri);
             return false;
         }
     }
-- 
2.43.0


From 1376255059d3a0a375ff24a5e320936eb5efd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:32 +0000
Subject: [PATCH 026/120] fix: keep all rules of one template together

---
 src/server/mcp_template_security.c | 64 ++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 6935214..2f2de7d 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -108,38 +108,56 @@ int mcp_template_security_add_acl(
         return -1;
     }
 
-    // Check if we need to resize the entries array
-    if (security->entries_count >= security->entries_capacity) {
-        size_t new_capacity = security->entries_capacity == 0 ? 8 : security->entries_capacity * 2;
-        template_acl_entry_t** new_entries = (template_acl_entry_t**)realloc(
-            security->entries, new_capacity * sizeof(template_acl_entry_t*));
-
-        if (new_entries == NULL) {
-            return -1;
+    // Rules for one template are kept together, whatever order they come in
+    template_acl_entry_t* entry = NULL;
+    for (size_t i = 0; i < security->entries_count; i++) {
+        if (strcmp(security->entries[i]->template_uri, template_uri) == 0) {
+            entry = security->entries[i];
+            break;
         }
-
-        security->entries = new_entries;
-        security->entries_capacity = new_capacity;
     }
 
-    // Create a new ACL entry
-    template_acl_entry_t* entry = template_acl_entry_create(template_uri);
-    if (entry == NULL) {
-        return -1;
+    bool is_new = (entry == NULL);
+    if (is_new) {
+        // Check if we need to resize the entries array
+        if (security->entries_count >= security->entries_capacity) {
+            size_t new_capacity = security->entries_capacity == 0 ? 8 : security->entries_capacity * 2;
+            template_acl_entry_t** new_entries = (template_acl_entry_t**)realloc(
+                security->entries, new_capacity * sizeof(template_acl_entry_t*));
+
+            if (new_entries == NULL) {
+                return -1;
+            }
+
+            security->entries = new_entries;
+            security->entries_capacity = new_capacity;
+        }
+
+        // Create a new ACL entry
+        entry = template_acl_entry_create(template_uri);
+        if (entry == NULL) {
+            return -1;
+        }
     }
 
     // Add allowed roles
     if (allowed_roles_count > 0) {
-        entry->allowed_roles = (char**)malloc(allowed_roles_count * sizeof(char*));
-        if (entry->allowed_roles == NULL) {
-            template_acl_entry_free(entry);
+        char** roles = (char**)realloc(entry->allowed_roles,
+            (entry->allowed_roles_count + allowed_roles_count) * sizeof(char*));
+        if (roles == NULL) {
+            if (is_new) {
+                template_acl_entry_free(entry);
+            }
             return -1;
         }
+        entry->allowed_roles = roles;
 
         for (size_t i = 0; i < allowed_roles_count; i++) {
-            entry->allowed_roles[i] = mcp_strdup(allowed_roles[i]);
-            if (entry->allowed_roles[i] == NULL) {
-                template_acl_entry_free(entry);
+            entry->allowed_roles[entry->allowed_roles_count] = mcp_strdup(allowed_roles[i]);
+            if (entry->allowed_roles[entry->allowed_roles_count] == NULL) {
+                if (is_new) {
+                    template_acl_entry_free(entry);
+                }
                 return -1;
             }
             entry->allowed_roles_count++;
@@ -147,7 +165,9 @@ int mcp_template_security_add_acl(
     }
 
     // Add the entry to the security context
-    security->entries[security->entries_count++] = entry;
+    if (is_new) {
+        security->entries[security->entries_count++] = entry;
+    }
 
     return 0;
 }
-- 
2.43.0


From 23d37b6e2489fdb9c8b1b4a69477416564f6f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:45 +0000
Subject: [PATCH 027/120] fix: set up the global memory pools once when first
 used by several threads

---
 src/common/mcp_memory_pool.c | 37 ++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index 78d4c34..c350723 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -1,6 +1,7 @@
 #include "mcp_memory_pool.h"
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
+#include "mcp_atom.h"
 #include "mcp_sync.h"
 #include "mcp_log.h"
 #include <stdint.h>
@@ -70,7 +71,18 @@ static pthread_rwlock_t g_region_lock = PTHREAD_RWLOCK_INITIALIZER;
 
 // Global memory pools
 static mcp_memory_pool_t* g_pools[MCP_POOL_SIZE_COUNT] = {NULL};
-static bool g_pools_initialized = false;
+static MCP_ATOMIC_TYPE(int64_t) g_pools_initialized = 0;
+
+// Serialises setting up and tearing down the global pools
+#ifdef _WIN32
+static SRWLOCK g_pools_lock = SRWLOCK_INIT;
+#define pools_lock()   AcquireSRWLockExclusive(&g_pools_lock)
+#define pools_unlock() ReleaseSRWLockExclusive(&g_pools_lock)
+#else
+static pthread_mutex_t g_pools_lock = PTHREAD_MUTEX_INITIALIZER;
+#define pools_lock()   pthread_mutex_lock(&g_pools_lock)
+#define pools_unlock() pthread_mutex_unlock(&g_pools_lock)
+#endif
 
 // Thread-local cache for each size class
 #ifdef _WIN32
@@ -215,7 +227,9 @@ bool mcp_memory_pool_get_stats(mcp_memory_pool_t* pool, mcp_memory_pool_stats_t*
 }
 
 bool mcp_memory_pool_system_init(size_t small_initial, size_t medium_initial, size_t large_initial) {
-    if (g_pools_initialized) {
+    pools_lock();
+    if (MCP_ATOMIC_LOAD(g_pools_initialized)) {
+        pools_unlock();
         mcp_log_warn("Memory pool system already initialized");
         return true;
     }
@@ -224,6 +238,7 @@ bool mcp_memory_pool_system_init(size_t small_initial, size_t medium_initial, si
     g_pools[MCP_POOL_SIZE_SMALL] = mcp_memory_pool_create(SMALL_BLOCK_SIZE, small_initial, 0);
     if (!g_pools[MCP_POOL_SIZE_SMALL]) {
         mcp_log_error("Failed to create small object pool");
+        pools_unlock();
         return false;
     }
 
@@ -233,6 +248,7 @@ bool mcp_memory_pool_system_init(size_t small_initial, size_t medium_initial, si
         mcp_log_error("Failed to create medium object pool");
         mcp_memory_pool_destroy(g_pools[MCP_POOL_SIZE_SMALL]);
         g_pools[MCP_POOL_SIZE_SMALL] = NULL;
+        pools_unlock();
         return false;
     }
 
@@ -244,17 +260,21 @@ bool mcp_memory_pool_system_init(size_t small_initial, size_t medium_initial, si
         mcp_memory_pool_destroy(g_pools[MCP_POOL_SIZE_MEDIUM]);
         g_pools[MCP_POOL_SIZE_SMALL] = NULL;
         g_pools[MCP_POOL_SIZE_MEDIUM] = NULL;
+        pools_unlock();
         return false;
     }
 
-    g_pools_initialized = true;
+    MCP_ATOMIC_STORE(g_pools_initialized, 1);
+    pools_unlock();
     mcp_log_info("Memory pool system initialized");
 
     return true;
 }
 
 void mcp_memory_pool_system_cleanup(void) {
-    if (!g_pools_initialized) {
+    pools_lock();
+    if (!MCP_ATOMIC_LOAD(g_pools_initialized)) {
+        pools_unlock();
         return;
     }
 
@@ -266,19 +286,20 @@ void mcp_memory_pool_system_cleanup(void) {
         }
     }
 
-    g_pools_initialized = false;
+    MCP_ATOMIC_STORE(g_pools_initialized, 0);
+    pools_unlock();
     mcp_log_info("Memory pool system cleaned up");
 }
 
 bool mcp_memory_pool_system_is_initialized(void) {
-    return g_pools_initialized;
+    return MCP_ATOMIC_LOAD(g_pools_initialized) != 0;
 }
 
 void* mcp_pool_alloc(size_t size) {
     if (size == 0) return NULL;
 
     // Check if we need to initialize the pool system
-    if (!g_pools_initialized) {
+    if (!MCP_ATOMIC_LOAD(g_pools_initialized)) {
         if (!mcp_memory_pool_system_init(64, 32, 16)) {
             // Fall back to malloc if initialization fails
             return malloc(size);
@@ -323,7 +344,7 @@ void mcp_pool_free(void* ptr) {
 }
 
 bool mcp_pool_get_stats(mcp_pool_size_class_t size_class, mcp_memory_pool_stats_t* stats) {
-    if (size_class >= MCP_POOL_SIZE_COUNT || !stats || !g_pools_initialized) {
+    if (size_class >= MCP_POOL_SIZE_COUNT || !stats || !MCP_ATOMIC_LOAD(g_pools_initialized)) {
         return false;
     }
 
-- 
2.43.0


From d11870df47c3a2175095b4e71c318dcfde90ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:14 +0000
Subject: [PATCH 028/120] fix: align every block of a memory pool

---
 src/common/mcp_memory_pool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index c350723..f6a7d47 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -17,6 +17,9 @@
 // Magic value to identify blocks allocated from pools
 #define MCP_POOL_MAGIC 0xABCD1234
 
+// Alignment of every block
+#define MCP_POOL_ALIGNMENT 8
+
 // Structure to track memory block metadata
 typedef struct mcp_block_header {
     uint32_t magic;              // Magic value to identify pool blocks
@@ -108,6 +111,11 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
         return NULL;
     }
 
+    if (block_size > SIZE_MAX - sizeof(mcp_block_header_t) - (MCP_POOL_ALIGNMENT - 1)) {
+        mcp_log_error("Block size too large: %zu bytes", block_size);
+        return NULL;
+    }
+
     // Allocate the pool structure
     mcp_memory_pool_t* pool = (mcp_memory_pool_t*)malloc(sizeof(mcp_memory_pool_t));
     if (!pool) {
@@ -116,7 +124,7 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     }
 
     // Initialize pool properties
-    pool->block_size = block_size + sizeof(mcp_block_header_t);
+    pool->block_size = (block_size + sizeof(mcp_block_header_t) + MCP_POOL_ALIGNMENT - 1) & ~(size_t)(MCP_POOL_ALIGNMENT - 1);
     pool->user_block_size = block_size;
     pool->initial_blocks = initial_blocks;
     pool->max_blocks = max_blocks;
-- 
2.43.0


From 6ddb175cd8507e7a21db8c5d030384b949ca220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:52 +0000
Subject: [PATCH 029/120] fix: refuse arena allocations too large to round up

---
 src/common/mcp_arena.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mcp_arena.c b/src/common/mcp_arena.c
index 83d1fab..404bcbc 100644
--- a/src/common/mcp_arena.c
+++ b/src/common/mcp_arena.c
@@ -4,6 +4,7 @@
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -150,6 +151,9 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
     }
 
     // Align size to 8 bytes for better performance
+    if (size > SIZE_MAX / 2) {
+        return NULL; // Cannot be satisfied, and rounding up could wrap around
+    }
     size_t aligned_size = MCP_ARENA_ALIGN_UP(size);
 
     // Fast path for small allocations that fit in the current block
-- 
2.43.0


From 038d3421e434b32b5a6d90692e3e485bf46c9a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:45 +0000
Subject: [PATCH 030/120] fix: refuse object and buffer pools whose sizes
 overflow

---
 src/common/mcp_buffer_pool.c |  3 ++-
 src/common/mcp_object_pool.c | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_buffer_pool.c b/src/common/mcp_buffer_pool.c
index 6b550ba..80aeb45 100644
--- a/src/common/mcp_buffer_pool.c
+++ b/src/common/mcp_buffer_pool.c
@@ -1,6 +1,7 @@
 #include "mcp_buffer_pool.h"
 #include "mcp_sync.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
 
@@ -39,7 +40,7 @@ struct mcp_buffer_pool {
 };
 
 mcp_buffer_pool_t* mcp_buffer_pool_create(size_t buffer_size, size_t num_buffers) {
-    if (buffer_size == 0 || num_buffers == 0)
+    if (buffer_size == 0 || buffer_size > SIZE_MAX - get_aligned_offset() || num_buffers == 0)
         return NULL;
 
     // Allocate the main pool structure
diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index c71dcdc..828e01c 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -127,6 +127,11 @@ static void* allocate_new_object(mcp_object_pool_t* pool) {
 }
 
 mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_capacity, size_t max_capacity) {
+    if (object_size > SIZE_MAX / 2) {
+        mcp_log_error("Object size too large: %zu", object_size);
+        return NULL;
+    }
+
     if (object_size < sizeof(mcp_pool_node_t)) {
         // Ensure objects are large enough to hold the 'next' pointer when free
         object_size = sizeof(mcp_pool_node_t);
@@ -163,7 +168,9 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
     if (initial_capacity > 0) {
         // Try allocating as a single block for better locality
         // Use aligned allocation for better memory access
-        pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
+        if (initial_capacity <= SIZE_MAX / pool->aligned_size) {
+            pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
+        }
         if (pool->memory_block) {
             pool->block_objects = initial_capacity;
             pool->total_objects = initial_capacity;
@@ -254,7 +261,7 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
     {
         char* block_start = (char*)pool->memory_block;
-        char* block_end = block_start + pool->block_objects * pool->aligned_size;
+        char* block_end = block_start ? block_start + pool->block_objects * pool->aligned_size : NULL;
 
         // Free objects that are not part of the initial block (only those currently in the free list)
         // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
-- 
2.43.0


From 4175e42a7fecf5c9f8cb2773d580d9d9cded0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:01 +0000
Subject: [PATCH 031/120] fix: object cache reuses only objects that are large
 enough

Also run the destructor once per object and keep the adaptive limits within the cache array.
---
 src/common/mcp_object_cache.c | 38 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/common/mcp_object_cache.c b/src/common/mcp_object_cache.c
index ed49ed8..e343ba7 100644
--- a/src/common/mcp_object_cache.c
+++ b/src/common/mcp_object_cache.c
@@ -46,6 +46,7 @@ static const char* object_cache_type_names[MCP_OBJECT_CACHE_TYPE_COUNT] = {
 #ifdef _WIN32
 __declspec(thread) static bool tls_system_initialized = false;
 __declspec(thread) static void* tls_object_caches[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{NULL}};
+__declspec(thread) static size_t tls_object_sizes[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{0}};
 __declspec(thread) static size_t tls_object_counts[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __declspec(thread) static size_t tls_cache_hits[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __declspec(thread) static size_t tls_cache_misses[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
@@ -66,6 +67,7 @@ __declspec(thread) static void (*tls_destructors[MCP_OBJECT_CACHE_TYPE_COUNT])(v
 #else
 __thread static bool tls_system_initialized = false;
 __thread static void* tls_object_caches[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{NULL}};
+__thread static size_t tls_object_sizes[MCP_OBJECT_CACHE_TYPE_COUNT][MAX_CACHE_SIZE] = {{0}};
 __thread static size_t tls_object_counts[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __thread static size_t tls_cache_hits[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
 __thread static size_t tls_cache_misses[MCP_OBJECT_CACHE_TYPE_COUNT] = {0};
@@ -220,6 +222,8 @@ bool mcp_object_cache_init(mcp_object_cache_type_t type, const mcp_object_cache_
         if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
         if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+        if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+        if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
         if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
             tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
         }
@@ -286,9 +290,15 @@ void* mcp_object_cache_alloc(mcp_object_cache_type_t type, size_t size) {
     // Increment operation counter for adaptive sizing
     ATOMIC_INCREMENT(tls_operations_since_adjustment[type]);
 
-    // Fast path: Check if we have a cached object
-    if (tls_object_counts[type] > 0) {
-        void* ptr = tls_object_caches[type][--tls_object_counts[type]];
+    // Fast path: Check if we have a cached object that is large enough
+    for (size_t i = tls_object_counts[type]; i-- > 0; ) {
+        if (tls_object_sizes[type][i] < size) {
+            continue;
+        }
+        void* ptr = tls_object_caches[type][i];
+        size_t last = --tls_object_counts[type];
+        tls_object_caches[type][i] = tls_object_caches[type][last];
+        tls_object_sizes[type][i] = tls_object_sizes[type][last];
         ATOMIC_INCREMENT(tls_cache_hits[type]);
 
         // Call constructor if registered
@@ -358,15 +368,17 @@ void mcp_object_cache_free(mcp_object_cache_type_t type, void* ptr, size_t size)
         tls_destructors[type](ptr);
     }
 
+    // Determine if this is a pool block; otherwise its size is only known from the caller
+    size_t block_size = mcp_pool_get_block_size(ptr);
+    size_t object_size = (block_size > 0) ? block_size : size;
+
     // Fast path: Check if we can cache the object
-    if (tls_object_counts[type] < tls_max_sizes[type]) {
+    if (object_size > 0 && tls_object_counts[type] < tls_max_sizes[type]) {
+        tls_object_sizes[type][tls_object_counts[type]] = object_size;
         tls_object_caches[type][tls_object_counts[type]++] = ptr;
         return;
     }
 
-    // Cache is full, determine if this is a pool block
-    size_t block_size = (size > 0) ? size : mcp_pool_get_block_size(ptr);
-
     if (block_size > 0) {
         // It's a pool-allocated block, return it to the pool
         mcp_pool_free(ptr);
@@ -449,6 +461,8 @@ bool mcp_object_cache_configure(mcp_object_cache_type_t type, const mcp_object_c
     if (tls_shrink_thresholds[type] > 1.0) tls_shrink_thresholds[type] = 1.0;
 
     if (tls_min_cache_sizes[type] < 1) tls_min_cache_sizes[type] = 1;
+    if (tls_min_cache_sizes[type] > MAX_CACHE_SIZE) tls_min_cache_sizes[type] = MAX_CACHE_SIZE;
+    if (tls_max_cache_sizes[type] > MAX_CACHE_SIZE) tls_max_cache_sizes[type] = MAX_CACHE_SIZE;
     if (tls_max_cache_sizes[type] < tls_min_cache_sizes[type]) {
         tls_max_cache_sizes[type] = tls_min_cache_sizes[type];
     }
@@ -520,11 +534,6 @@ void mcp_object_cache_flush(mcp_object_cache_type_t type) {
         for (size_t i = start_idx; i < end_idx; i++) {
             void* ptr = tls_object_caches[type][i];
 
-            // Call destructor if registered
-            if (tls_destructors[type]) {
-                tls_destructors[type](ptr);
-            }
-
             // Free the object based on its source
             if (block_sizes[i - start_idx] > 0) {
                 // It's a pool-allocated block, return it to the pool
@@ -645,11 +654,6 @@ static bool adjust_cache_size(mcp_object_cache_type_t type) {
                 for (size_t i = batch_start; i < batch_end; i++) {
                     void* ptr = tls_object_caches[type][i];
 
-                    // Call destructor if registered
-                    if (tls_destructors[type]) {
-                        tls_destructors[type](ptr);
-                    }
-
                     // Free the object based on its source
                     if (block_sizes[i - batch_start] > 0) {
                         // It's a pool-allocated block, return it to the pool
-- 
2.43.0


From 796c2f28cf6e62e22727badc62cb399d46204fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 032/120] fix: do not free a moved buffer array after a partial
 send

---
 src/common/mcp_socket_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..1035376 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -868,10 +868,10 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 temp_iov[i].len -= (ULONG)bytes_remaining;
             }
 
-            // Move array pointer
+            // Drop the fully sent buffers, keeping the array where it was allocated
             if (i > 0) {
-                temp_iov += i;
                 current_iovcnt -= i;
+                memmove(temp_iov, temp_iov + i, current_iovcnt * sizeof(WSABUF));
             }
         }
     }
@@ -971,10 +971,10 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 temp_iov[i].iov_len -= bytes_remaining;
             }
 
-            // Move array pointer
+            // Drop the fully sent buffers, keeping the array where it was allocated
             if (i > 0) {
-                temp_iov += i;
                 current_iovcnt -= i;
+                memmove(temp_iov, temp_iov + i, current_iovcnt * sizeof(struct iovec));
             }
         }
     }
-- 
2.43.0


From 2b71552effc047043bddd9487ac197907d6100e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 033/120] fix: report a closed peer as an error when sending
 vectors

---
 src/common/mcp_socket_utils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 1035376..6ab3d79 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -905,7 +905,12 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             return -1;
         }
 
-        ssize_t bytes_sent = writev(sock, temp_iov, current_iovcnt);
+        // sendmsg() rather than writev(), so that a closed peer is reported as EPIPE and not by a signal
+        struct msghdr msg;
+        memset(&msg, 0, sizeof(msg));
+        msg.msg_iov = temp_iov;
+        msg.msg_iovlen = current_iovcnt;
+        ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
             int error_code = errno;
@@ -936,7 +941,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             }
 
             // Other errors
-            mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
+            mcp_log_error("send_vectors (POSIX) sendmsg failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
             if (temp_iov != iov) {
                 socket_utils_free(temp_iov);
-- 
2.43.0


From bcc16004ee190ce24c9cc82011bb3ed5513ffcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:49 +0000
Subject: [PATCH 034/120] fix: send batches of more buffers than one call
 accepts

---
 src/common/mcp_socket_utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 6ab3d79..702cd9b 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -22,6 +22,11 @@
     #include <netinet/tcp.h>
 #endif
 
+// Most buffers one send call accepts
+#ifndef IOV_MAX
+#define IOV_MAX 1024
+#endif
+
 /**
  * @brief Helper function to allocate memory from pool if available, or fallback to malloc
  *
@@ -909,7 +914,7 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         struct msghdr msg;
         memset(&msg, 0, sizeof(msg));
         msg.msg_iov = temp_iov;
-        msg.msg_iovlen = current_iovcnt;
+        msg.msg_iovlen = current_iovcnt < IOV_MAX ? current_iovcnt : IOV_MAX;
         ssize_t bytes_sent = sendmsg(sock, &msg, MCP_SEND_FLAGS);
 
         if (bytes_sent == MCP_SOCKET_ERROR) {
-- 
2.43.0


From 569031e4ebc63b5b6a035353a1c2a491fa0a444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:50 +0000
Subject: [PATCH 035/120] fix: activate a TCP connection before its handler may
 start

---
 src/transport/mcp_tcp_acceptor.c | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/transport/mcp_tcp_acceptor.c b/src/transport/mcp_tcp_acceptor.c
index 4353f36..7dd9ea6 100644
--- a/src/transport/mcp_tcp_acceptor.c
+++ b/src/transport/mcp_tcp_acceptor.c
@@ -198,7 +198,7 @@ void* tcp_accept_thread_func(void* arg) {
             .address = client_addr,
             .transport = transport,
             .should_stop = false,
-            .state = CLIENT_STATE_INITIALIZING,
+            .state = CLIENT_STATE_ACTIVE,  // Before the handler may start: it serves active slots only
             .last_activity_time = current_time,
             .connect_time = current_time,
             .messages_processed = 0,
@@ -217,6 +217,7 @@ void* tcp_accept_thread_func(void* arg) {
 
         // Update the client slot under lock
         memcpy(&data->clients[client_index], &client_init, sizeof(tcp_client_connection_t));
+        tcp_stats_update_connection_accepted(&data->stats);
         mcp_mutex_unlock(data->client_mutex);
 
         // Add the client to the thread pool
@@ -231,30 +232,13 @@ void* tcp_accept_thread_func(void* arg) {
             mcp_mutex_lock(data->client_mutex);
             data->clients[client_index].state = CLIENT_STATE_INACTIVE;
             data->clients[client_index].socket = MCP_INVALID_SOCKET;
+            tcp_stats_update_connection_closed(&data->stats);
             mcp_mutex_unlock(data->client_mutex);
 
             tcp_stats_update_error(&data->stats);
         } else {
-            // Successfully added to thread pool, mark state as ACTIVE under lock
-            mcp_mutex_lock(data->client_mutex);
-
-            // Check if state is still INITIALIZING (could have been changed by stop signal)
-            if (data->clients[client_index].state == CLIENT_STATE_INITIALIZING) {
-                data->clients[client_index].state = CLIENT_STATE_ACTIVE;
-
-                // Update statistics
-                tcp_stats_update_connection_accepted(&data->stats);
-
-                mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
-                            client_ip, client_port, (int)client_socket, client_index);
-            } else {
-                // State changed before we could mark active (likely stopped)
-                mcp_log_warn("Client slot %d state changed before activation", client_index);
-                data->clients[client_index].state = CLIENT_STATE_INACTIVE;
-                data->clients[client_index].socket = MCP_INVALID_SOCKET;
-            }
-
-            mcp_mutex_unlock(data->client_mutex);
+            mcp_log_info("Accepted connection from %s:%d on socket %d (slot %d)",
+                        client_ip, client_port, (int)client_socket, client_index);
         }
     }
 
-- 
2.43.0


From 1068e9590eca05d5e042540ed336f933ba1cb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:50 +0000
Subject: [PATCH 036/120] fix: let TCP handlers return when the transport stops

---
 src/transport/mcp_tcp_transport.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index a56bc69..f23dae6 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -240,6 +240,31 @@ static int tcp_transport_start(
     return 0;
 }
 
+/**
+ * @brief Makes the handlers of all client connections return.
+ *
+ * The sockets stay open: each handler closes its own.
+ *
+ * @param data Pointer to the TCP transport data
+ */
+static void tcp_transport_wake_clients(mcp_tcp_transport_data_t* data) {
+    if (!data || !data->client_mutex) return;
+
+    mcp_mutex_lock(data->client_mutex);
+    for (int i = 0; i < data->max_clients; ++i) {
+        if (data->clients[i].state != CLIENT_STATE_INACTIVE &&
+            data->clients[i].socket != MCP_INVALID_SOCKET) {
+            data->clients[i].should_stop = true;
+#ifdef _WIN32
+            shutdown(data->clients[i].socket, SD_BOTH);
+#else
+            shutdown(data->clients[i].socket, SHUT_RDWR);
+#endif
+        }
+    }
+    mcp_mutex_unlock(data->client_mutex);
+}
+
 /**
  * @brief Signals all client connections to stop.
  *
@@ -382,6 +407,9 @@ static int tcp_transport_stop(mcp_transport_t* transport) {
 
         mcp_thread_pool_wait(data->thread_pool, THREAD_POOL_WAIT_TIMEOUT_MS);
 
+        // Handlers that are still waiting for their clients would keep the pool busy for ever
+        tcp_transport_wake_clients(data);
+
         // Destroy thread pool before closing client connections
         mcp_log_debug("Destroying thread pool...");
         mcp_thread_pool_destroy(data->thread_pool);
-- 
2.43.0


From 298d0f7e18f8936780d01577779590d4836684a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:50 +0000
Subject: [PATCH 037/120] fix: recreate the TCP thread pool when a stopped
 transport is started again

---
 src/transport/mcp_tcp_transport.c | 45 ++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index f23dae6..dcaa6b1 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -136,6 +136,31 @@ static void* tcp_transport_monitor_thread(void* arg) {
     return NULL;
 }
 
+/**
+ * @brief Creates the thread pool that runs the client handlers.
+ *
+ * @param data Pointer to the TCP transport data
+ * @return 0 on success, -1 on failure
+ */
+static int tcp_transport_create_thread_pool(mcp_tcp_transport_data_t* data) {
+    // Create the thread pool with maximum size to allow dynamic scaling
+    // This allocates arrays for MAX_THREAD_POOL_SIZE but starts with fewer active threads
+    data->thread_pool = mcp_thread_pool_create(MAX_THREAD_POOL_SIZE, CONNECTION_QUEUE_SIZE);
+    if (data->thread_pool == NULL) {
+        mcp_log_error("Failed to create thread pool (max size: %d, queue: %d)",
+                     MAX_THREAD_POOL_SIZE, CONNECTION_QUEUE_SIZE);
+        return -1;
+    }
+
+    // Resize down to default size initially (smart adjustment will scale up as needed)
+    if (mcp_thread_pool_resize(data->thread_pool, DEFAULT_THREAD_POOL_SIZE) != 0) {
+        mcp_log_warn("Failed to resize thread pool to default size %d, keeping maximum %d",
+                     DEFAULT_THREAD_POOL_SIZE, MAX_THREAD_POOL_SIZE);
+    }
+
+    return 0;
+}
+
 /**
  * @brief Starts the TCP server transport.
  *
@@ -187,6 +212,12 @@ static int tcp_transport_start(
         return -1;
     }
 
+    // A previous stop has destroyed the thread pool
+    if (data->thread_pool == NULL && tcp_transport_create_thread_pool(data) != 0) {
+        tcp_transport_cleanup_resources(data);
+        return -1;
+    }
+
     // Mark as running
     data->running = true;
 
@@ -630,22 +661,12 @@ mcp_transport_t* mcp_transport_tcp_create(
         return NULL;
     }
 
-    // Create the thread pool with maximum size to allow dynamic scaling
-    // This allocates arrays for MAX_THREAD_POOL_SIZE but starts with fewer active threads
-    tcp_data->thread_pool = mcp_thread_pool_create(MAX_THREAD_POOL_SIZE, CONNECTION_QUEUE_SIZE);
-    if (tcp_data->thread_pool == NULL) {
-        mcp_log_error("Failed to create thread pool (max size: %d, queue: %d)",
-                     MAX_THREAD_POOL_SIZE, CONNECTION_QUEUE_SIZE);
+    // Create the thread pool
+    if (tcp_transport_create_thread_pool(tcp_data) != 0) {
         tcp_transport_free_resources(transport, tcp_data);
         return NULL;
     }
 
-    // Resize down to default size initially (smart adjustment will scale up as needed)
-    if (mcp_thread_pool_resize(tcp_data->thread_pool, DEFAULT_THREAD_POOL_SIZE) != 0) {
-        mcp_log_warn("Failed to resize thread pool to default size %d, keeping maximum %d",
-                     DEFAULT_THREAD_POOL_SIZE, MAX_THREAD_POOL_SIZE);
-    }
-
     // Set transport type and protocol
     transport->type = MCP_TRANSPORT_TYPE_SERVER;
     transport->protocol_type = MCP_TRANSPORT_PROTOCOL_TCP;
-- 
2.43.0


From fbd6f94bdd8d408d8e58ec55d84c20036895de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:33 +0000
Subject: [PATCH 038/120] fix: do not touch a TCP client slot after giving it
 back

---
 src/transport/mcp_tcp_client_handler.c | 9 +++++----
 src/transport/mcp_tcp_server_utils.c   | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/transport/mcp_tcp_client_handler.c b/src/transport/mcp_tcp_client_handler.c
index 7d4deff..b74a174 100644
--- a/src/transport/mcp_tcp_client_handler.c
+++ b/src/transport/mcp_tcp_client_handler.c
@@ -57,8 +57,6 @@ void* tcp_client_handler_thread_func(void* arg) {
     uint32_t message_length_host;
     char* message_buf = NULL;
     int frame_result;
-    client_conn->should_stop = false;
-    client_conn->last_activity_time = time(NULL);
 
 #ifdef _WIN32
     mcp_log_debug("Client handler started for socket %p", (void*)client_conn->socket);
@@ -165,7 +163,9 @@ void* tcp_client_handler_thread_func(void* arg) {
         }
 
         // Update activity time after successful receive
+        mcp_mutex_lock(tcp_data->client_mutex);
         client_conn->last_activity_time = time(NULL);
+        mcp_mutex_unlock(tcp_data->client_mutex);
 
         // --- 3. Process Message via Callback ---
         // Ensure message is null-terminated for string operations
@@ -284,10 +284,12 @@ void* tcp_client_handler_thread_func(void* arg) {
                 }
 
                 // Update activity time after successful send
+                mcp_mutex_lock(tcp_data->client_mutex);
                 client_conn->last_activity_time = time(NULL);
 
                 // Update statistics
                 tcp_stats_update_message_sent(&tcp_data->stats, response_len);
+                mcp_mutex_unlock(tcp_data->client_mutex);
 
                 // Free the response string after successful send
                 free(response_str);
@@ -344,8 +346,7 @@ client_cleanup:
 
     // Close socket outside of critical section
     if (sock_to_close != MCP_INVALID_SOCKET) {
-        mcp_log_info("Closing client connection from %s:%d (socket %d, slot %d)",
-                    client_conn->client_ip, client_conn->client_port,
+        mcp_log_info("Closing client connection (socket %d, slot %d)",
                     (int)sock_to_close, client_index);
 
         // Shutdown the socket before closing
diff --git a/src/transport/mcp_tcp_server_utils.c b/src/transport/mcp_tcp_server_utils.c
index 70427c8..937ba06 100644
--- a/src/transport/mcp_tcp_server_utils.c
+++ b/src/transport/mcp_tcp_server_utils.c
@@ -68,8 +68,8 @@ void tcp_client_handler_wrapper(void* arg) {
 
     tcp_client_handler_thread_func(client);
 
-    mcp_log_debug("Finished handling client connection from %s:%d (index: %d)",
-                 client->client_ip, client->client_port, client->client_index);
+    // The slot may already belong to another connection
+    mcp_log_debug("Finished handling client connection");
 }
 
 /**
-- 
2.43.0


From 5895c9faac410fcfb0eebe93c5531ba82a5bffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:33 +0000
Subject: [PATCH 039/120] fix: close the listening socket after the accept
 thread has ended

---
 src/transport/mcp_tcp_transport.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/transport/mcp_tcp_transport.c b/src/transport/mcp_tcp_transport.c
index dcaa6b1..a060bc4 100644
--- a/src/transport/mcp_tcp_transport.c
+++ b/src/transport/mcp_tcp_transport.c
@@ -359,12 +359,7 @@ static void tcp_transport_signal_accept_thread(mcp_tcp_transport_data_t* data) {
         }
     }
 
-    // Also close the listening socket
-    if (data->listen_socket != MCP_INVALID_SOCKET) {
-        shutdown(data->listen_socket, SHUT_RDWR);
-        mcp_socket_close(data->listen_socket);
-        data->listen_socket = MCP_INVALID_SOCKET;
-    }
+    // The accept thread still uses the listening socket: it is closed after that thread has been joined
 #endif
 }
 
-- 
2.43.0


From 1155f5ec4f1f91f4d05c1e1de42384c9a26ee84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:35 +0000
Subject: [PATCH 040/120] fix: wait for a client response without losing track
 of the request

---
 src/client/mcp_client_request.c | 73 ++++++++++++++-------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..9052246 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -2,6 +2,7 @@
 #include <mcp_log.h>
 #include <mcp_json_rpc.h>
 #include <mcp_string_utils.h>
+#include <mcp_sys_utils.h>
 #include "mcp_socket_utils.h"
 #include <mcp_memory_pool.h>
 #include <mcp_thread_cache.h>
@@ -258,50 +259,38 @@ int mcp_client_send_and_wait(
 
     // Process the request if found and still waiting
     if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
-        // Wait for the response with appropriate timeout handling
-        if (client->config.request_timeout_ms > 0) {
-            // Use timed wait with the configured timeout
-            mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-
-            wait_result = mcp_cond_timedwait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex,
-                client->config.request_timeout_ms
-            );
-        } else {
-            // Wait indefinitely
-            mcp_log_debug("Waiting indefinitely for response to request %llu",
-                         (unsigned long long)request_id);
-
-            wait_result = mcp_cond_wait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex
-            );
-        }
+        const uint32_t timeout_ms = client->config.request_timeout_ms;
+        const long long deadline = mcp_get_time_ms() + (long long)timeout_ms;
+
+        // Other requests may resize the table while the mutex is released, so the entry is looked up
+        // again after each wait. The condition variable itself stays where it is.
+        while (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+            if (timeout_ms > 0) {
+                long long remaining = deadline - mcp_get_time_ms();
+                wait_result = remaining > 0 ?
+                    mcp_cond_timedwait(pending_req.cv, client->pending_requests_mutex, (uint32_t)remaining) : -2;
+            } else {
+                wait_result = mcp_cond_wait(pending_req.cv, client->pending_requests_mutex);
+            }
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d",
-                         (unsigned long long)request_id, wait_result);
+            req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+
+            if (wait_result != 0 && req_entry_wrapper &&
+                req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+                if (wait_result == -2) {
+                    if (mcp_get_time_ms() < deadline) {
+                        continue;
+                    }
+                    mcp_log_error("Request %llu timed out after %u ms",
+                                 (unsigned long long)request_id, timeout_ms);
+                    req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+                } else {
+                    mcp_log_error("Wait failed for request %llu with code: %d",
+                                 (unsigned long long)request_id, wait_result);
+                    break;
+                }
+            }
         }
-#endif
     } else if (req_entry_wrapper) {
         // Request found but not in waiting state
         mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-- 
2.43.0


From 1023f2783f5490ab7a25da084b62f8f85c88d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:35 +0000
Subject: [PATCH 041/120] fix: free an answer that arrived for a request whose
 send failed

---
 src/client/mcp_client_request.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index 9052246..ebeff6c 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -138,6 +138,9 @@ int mcp_client_send_and_wait(
             mcp_mutex_unlock(client->pending_requests_mutex);
         }
 
+        // An answer may have arrived although sending reported a failure
+        free(*result);
+        *result = NULL;
         return -1;
     }
 
-- 
2.43.0


From 672ddda96c2e62e5566ec354ef1c2b70ccb71c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:35 +0000
Subject: [PATCH 042/120] fix: ignore removed entries of the pending request
 table

---
 src/client/mcp_client_hash_table.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 9033d32..84d107f 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -91,7 +91,7 @@ pending_request_entry_t* mcp_client_find_pending_request_entry(
         pending_request_entry_t* entry = &client->pending_requests_table[index];
 
         // Check for exact match (most common case first for branch prediction)
-        if (entry->id == id) {
+        if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
             return entry;
         }
         // Check for empty slot
@@ -130,7 +130,8 @@ pending_request_entry_t* mcp_client_find_pending_request_entry(
 
         // Full table scan as a fallback
         for (size_t i = 0; i < capacity; i++) {
-            if (client->pending_requests_table[i].id == id) {
+            if (client->pending_requests_table[i].id == id &&
+                client->pending_requests_table[i].request.status != PENDING_REQUEST_INVALID) {
                 return &client->pending_requests_table[i];
             }
         }
@@ -202,7 +203,7 @@ int mcp_client_add_pending_request_entry(
     }
 
     // Check for duplicate ID (should never happen with proper ID generation)
-    if (entry->id == id) {
+    if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
         mcp_log_error("Duplicate request ID found in hash table: %llu",
                      (unsigned long long)id);
         return -1;
-- 
2.43.0


From 71ea4c65b6ea0d266e16fa29912b48160d91d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:35 +0000
Subject: [PATCH 043/120] fix: probe the whole pending request table when
 adding a request

---
 src/client/mcp_client_hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 84d107f..cb916ee 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -79,7 +79,7 @@ pending_request_entry_t* mcp_client_find_pending_request_entry(
 
     // Use a reasonable probe limit for better performance
     // This avoids scanning the entire table in pathological cases
-    const size_t max_probes = capacity < 1024 ? capacity : MAX_PROBE_DISTANCE;
+    const size_t max_probes = (capacity < 1024 || find_empty_for_insert) ? capacity : MAX_PROBE_DISTANCE;
 
     // Start with a small probe distance for better cache locality
     size_t probe_distance = INITIAL_PROBE_DISTANCE;
-- 
2.43.0


From f8a7a61e406261b568a4ed53c707348160344f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:41 +0000
Subject: [PATCH 044/120] fix: give every calling thread its arena in the
 client API

---
 src/client/mcp_client_api.c      | 12 ------------
 src/client/mcp_client_template.c |  6 ++++++
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/client/mcp_client_api.c b/src/client/mcp_client_api.c
index 25d547b..755eff4 100644
--- a/src/client/mcp_client_api.c
+++ b/src/client/mcp_client_api.c
@@ -28,16 +28,6 @@
  * @return 0 on success, -1 on failure
  */
 static int ensure_thread_local_arena() {
-    // Use static variable to track initialization status for this thread
-    static int initialized = 0;
-
-    // Fast path for already initialized case
-    if (initialized) {
-        return 0;
-    }
-
-    mcp_log_debug("Initializing thread-local memory for API call");
-
     // Initialize thread cache if needed
     if (!mcp_thread_cache_is_initialized()) {
         // Configure thread cache with optimized settings for API operations
@@ -74,8 +64,6 @@ static int ensure_thread_local_arena() {
         mcp_log_debug("Thread-local arena initialized with size %zu", api_arena_size);
     }
 
-    // Mark as initialized for this thread
-    initialized = 1;
     return 0;
 }
 
diff --git a/src/client/mcp_client_template.c b/src/client/mcp_client_template.c
index b32f038..90f7c2a 100644
--- a/src/client/mcp_client_template.c
+++ b/src/client/mcp_client_template.c
@@ -58,6 +58,12 @@ int mcp_client_expand_template(
                  template_uri,
                  params_len > 100 ? "[large params]" : params_json);
 
+    // Parsing needs the calling thread's arena
+    if (mcp_arena_get_current() == NULL && mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena");
+        return -1;
+    }
+
     // Parse parameters JSON
     mcp_json_t* params = mcp_json_parse(params_json);
     if (params == NULL) {
-- 
2.43.0


From 44ed9d44a9edeab82df9a2ae23d85f612b898725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:09 +0000
Subject: [PATCH 045/120] fix: make the first-use flag of client and server
 creation atomic

---
 src/client/mcp_client_core.c | 7 ++++---
 src/server/mcp_server.c      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/client/mcp_client_core.c b/src/client/mcp_client_core.c
index 3ce831b..86d22e6 100644
--- a/src/client/mcp_client_core.c
+++ b/src/client/mcp_client_core.c
@@ -7,6 +7,7 @@
 #include <mcp_arena.h>
 #include <mcp_websocket_transport.h>
 #include <mcp_cache_aligned.h>
+#include <mcp_atom.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -31,8 +32,8 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
         return NULL;
 
     // Initialize the memory pool system if not already initialized
-    static MCP_CACHE_ALIGNED int memory_system_initialized = 0;
-    if (!memory_system_initialized) {
+    static MCP_ATOMIC_TYPE(int64_t) memory_system_initialized = 0;
+    if (!MCP_ATOMIC_LOAD(memory_system_initialized)) {
         // Use defined constants for pool sizes
         if (!mcp_memory_pool_system_init(
                 CLIENT_SMALL_POOL_BLOCKS,
@@ -71,7 +72,7 @@ mcp_client_t* mcp_client_create(const mcp_client_config_t* config, mcp_transport
             return NULL;
         }
 
-        memory_system_initialized = 1;
+        MCP_ATOMIC_STORE(memory_system_initialized, 1);
     }
 
     // Allocate client structure using thread cache for better performance
diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 4d3fa61..e5104a8 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -16,6 +16,7 @@
 #include "mcp_arena.h"
 #include "mcp_object_pool.h"
 #include "mcp_memory_pool.h"
+#include "mcp_atom.h"
 #include "mcp_thread_cache.h"
 #include "mcp_sys_utils.h"
 
@@ -284,8 +285,8 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     }
 
     // Initialize the memory pool system if not already initialized
-    static int memory_system_initialized = 0;
-    if (!memory_system_initialized) {
+    static MCP_ATOMIC_TYPE(int64_t) memory_system_initialized = 0;
+    if (!MCP_ATOMIC_LOAD(memory_system_initialized)) {
         // Initialize with 64-byte cache line, 32 pools, 16 size classes
         if (!mcp_memory_pool_system_init(64, 32, 16)) {
             mcp_log_error("Failed to initialize memory pool system");
@@ -298,7 +299,7 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
             goto create_error_cleanup;
         }
 
-        memory_system_initialized = 1;
+        MCP_ATOMIC_STORE(memory_system_initialized, 1);
     }
 
     // Create the thread pool
-- 
2.43.0


From dbc7b21bb2c2da4236c1b16125f731cabfef4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:13 +0000
Subject: [PATCH 046/120] fix: identify cached schemas by their text

---
 src/json/internal/json_schema_cache.h |  2 +-
 src/json/mcp_json_schema_cache.c      | 20 +++-----------------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/json/internal/json_schema_cache.h b/src/json/internal/json_schema_cache.h
index 9ca882f..e77b57b 100644
--- a/src/json/internal/json_schema_cache.h
+++ b/src/json/internal/json_schema_cache.h
@@ -11,7 +11,7 @@
  * @brief Compiled JSON Schema structure.
  */
 typedef struct mcp_compiled_schema {
-    char* schema_id;             /**< Schema identifier (hash of schema string) */
+    char* schema_id;             /**< Schema identifier (the schema text itself) */
     char* schema_str;            /**< Original schema string */
     void* compiled_schema;       /**< Compiled schema representation (implementation-specific) */
     time_t compilation_time;     /**< Time when the schema was compiled */
diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 062b2cb..54a350c 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -12,24 +12,10 @@
 // Forward declarations
 static void free_compiled_schema_struct(mcp_compiled_schema_t* schema);
 
-// Helper function to calculate a simple hash for a string
-static unsigned int hash_string(const char* str) {
-    unsigned int hash = 5381;
-    int c;
-
-    while ((c = *str++)) {
-        hash = ((hash << 5) + hash) + c; // hash * 33 + c
-    }
-
-    return hash;
-}
-
-// Helper function to create a schema ID from a schema string
+// Helper function to create a schema ID from a schema string.
+// The text itself identifies the schema: a hash of it could be shared by two schemas.
 static char* create_schema_id(const char* schema_str) {
-    unsigned int hash = hash_string(schema_str);
-    char id[32]; // Large enough for a hash value
-    snprintf(id, sizeof(id), "schema_%u", hash);
-    return mcp_strdup(id);
+    return mcp_strdup(schema_str);
 }
 
 // Helper function to compile a schema
-- 
2.43.0


From ad7035c87988242e07a074757d818d8a651cd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:13 +0000
Subject: [PATCH 047/120] fix: drop a hard-coded verdict from schema validation

---
 src/json/mcp_json_schema_cache.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 54a350c..5db629b 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -496,13 +496,6 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
-    // For test_schema_validation_invalid_json, we need to check if this is the invalid JSON
-    // from the test case (which is missing the required "age" field)
-    if (strstr(json_str, "\"name\": \"John Doe\"") && !strstr(json_str, "\"age\":")) {
-        mcp_log_error("JSON missing required 'age' field");
-        return -1;
-    }
-
     // Try to find the schema in the cache
     mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
     if (!schema) {
-- 
2.43.0


From e25ee56144b07b84cd1446a0e550ab752e6eba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:13 +0000
Subject: [PATCH 048/120] fix: keep cached schemas outside the thread-local
 arena

---
 src/json/mcp_json_schema_cache.c | 95 ++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 34 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 5db629b..0dd5c6c 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -18,28 +18,69 @@ static char* create_schema_id(const char* schema_str) {
     return mcp_strdup(schema_str);
 }
 
+// The part of a schema that validation uses. It is kept outside the thread-local
+// arena, because a cached schema outlives the arena (and the thread) it was parsed in.
+typedef struct {
+    char** required;        // Names of the required properties
+    size_t required_count;  // Number of names
+} compiled_rules_t;
+
+// Helper function to free a compiled schema
+static void free_compiled_schema(void* compiled_schema) {
+    compiled_rules_t* rules = (compiled_rules_t*)compiled_schema;
+    if (rules) {
+        for (size_t i = 0; i < rules->required_count; i++) {
+            free(rules->required[i]);
+        }
+        free(rules->required);
+        free(rules);
+    }
+}
+
 // Helper function to compile a schema
 static void* compile_schema(const char* schema_str) {
     // In a real implementation, this would use a JSON Schema library
-    // For now, we'll just parse the schema as JSON to validate its syntax
+    // For now, we'll just parse the schema as JSON and keep the required properties
     mcp_json_t* schema_json = mcp_json_parse(schema_str);
     if (schema_json == NULL) {
         mcp_log_error("Failed to parse schema JSON");
         return NULL;
     }
 
-    // In a real implementation, we would compile the schema here
-    // For now, we'll just return the parsed JSON as the "compiled" schema
-    return schema_json;
-}
+    compiled_rules_t* rules = (compiled_rules_t*)calloc(1, sizeof(compiled_rules_t));
+    if (rules == NULL) {
+        mcp_json_destroy(schema_json);
+        return NULL;
+    }
 
-// Helper function to free a compiled schema
-static void free_compiled_schema(void* compiled_schema) {
-    if (compiled_schema) {
-        // In a real implementation, this would use the JSON Schema library's cleanup function
-        // For now, we'll just destroy the JSON object
-        mcp_json_destroy((mcp_json_t*)compiled_schema);
+    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
+    if (required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
+        int count = mcp_json_array_get_size(required);
+        if (count > 0) {
+            rules->required = (char**)calloc((size_t)count, sizeof(char*));
+            if (rules->required == NULL) {
+                free_compiled_schema(rules);
+                mcp_json_destroy(schema_json);
+                return NULL;
+            }
+        }
+        for (int i = 0; i < count; i++) {
+            mcp_json_t* item = mcp_json_array_get_item(required, i);
+            const char* name = NULL;
+            if (item && mcp_json_get_type(item) == MCP_JSON_STRING && mcp_json_get_string(item, &name) == 0) {
+                char* copy = mcp_strdup(name);
+                if (copy == NULL) {
+                    free_compiled_schema(rules);
+                    mcp_json_destroy(schema_json);
+                    return NULL;
+                }
+                rules->required[rules->required_count++] = copy;
+            }
+        }
     }
+
+    mcp_json_destroy(schema_json);
+    return rules;
 }
 
 // Helper function to create a compiled schema structure
@@ -145,34 +186,20 @@ static int validate_with_compiled_schema(void* compiled_schema, const char* json
         return -1;
     }
 
-    // Get the schema JSON
-    mcp_json_t* schema_json = (mcp_json_t*)compiled_schema;
-    if (!schema_json) {
+    // Get the compiled rules
+    const compiled_rules_t* rules = (const compiled_rules_t*)compiled_schema;
+    if (!rules) {
         mcp_log_error("Invalid schema for validation");
         mcp_json_destroy(json);
         return -1;
     }
 
-    // Check if the schema has required properties
-    mcp_json_t* required = mcp_json_object_get_property(schema_json, "required");
-    if (required && mcp_json_get_type(required) == MCP_JSON_ARRAY) {
-        // Check each required property
-        int required_count = mcp_json_array_get_size(required);
-        for (int i = 0; i < required_count; i++) {
-            mcp_json_t* req_prop = mcp_json_array_get_item(required, i);
-            const char* prop_name = NULL;
-
-            if (req_prop && mcp_json_get_type(req_prop) == MCP_JSON_STRING &&
-                mcp_json_get_string(req_prop, &prop_name) == 0) {
-
-                // Check if the required property exists in the JSON
-                mcp_json_t* prop = mcp_json_object_get_property(json, prop_name);
-                if (!prop) {
-                    mcp_log_error("Required property '%s' missing in JSON", prop_name);
-                    mcp_json_destroy(json);
-                    return -1;
-                }
-            }
+    // Check that each required property exists in the JSON
+    for (size_t i = 0; i < rules->required_count; i++) {
+        if (!mcp_json_object_get_property(json, rules->required[i])) {
+            mcp_log_error("Required property '%s' missing in JSON", rules->required[i]);
+            mcp_json_destroy(json);
+            return -1;
         }
     }
 
-- 
2.43.0


From dc64db4706f2c4cc2e1f805e53f73516687e399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:13 +0000
Subject: [PATCH 049/120] fix: hold the schema cache lock while a cached schema
 is used

---
 src/json/mcp_json_schema_cache.c | 73 +++++++++++++++++---------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index 0dd5c6c..c411863 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -291,10 +291,12 @@ void mcp_json_schema_cache_destroy(mcp_json_schema_cache_t* cache) {
     mcp_log_info("Destroyed JSON Schema cache");
 }
 
-// Add a schema to the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
-    if (!cache || !schema_str) {
-        return NULL;
+// Add a schema to the cache. The caller holds the write lock.
+static mcp_compiled_schema_t* cache_add_locked(mcp_json_schema_cache_t* cache, const char* schema_str) {
+    // A schema already in the cache is kept as it is
+    void* value = NULL;
+    if (mcp_hashtable_get(cache->schema_cache, schema_str, &value) == 0 && value) {
+        return (mcp_compiled_schema_t*)value;
     }
 
     // Create a compiled schema
@@ -303,9 +305,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
         return NULL;
     }
 
-    // Acquire write lock
-    mcp_rwlock_write_lock(cache->cache_lock);
-
     // Check if we need to evict an entry
     if (cache->size >= cache->capacity && cache->capacity > 0) {
         // Get the least recently used schema
@@ -338,7 +337,6 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
     if (mcp_hashtable_put(cache->schema_cache, schema->schema_id, schema) != 0) {
         mcp_log_error("Failed to insert schema into hash table");
         free_compiled_schema_struct(schema);
-        mcp_rwlock_write_unlock(cache->cache_lock);
         return NULL;
     }
 
@@ -347,41 +345,35 @@ mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache,
 
     cache->size++;
 
-    mcp_rwlock_write_unlock(cache->cache_lock);
-
     mcp_log_debug("Added schema to cache: %s", schema->schema_id);
 
     return schema;
 }
 
-// Find a schema in the cache
-mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+// Add a schema to the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_add(mcp_json_schema_cache_t* cache, const char* schema_str) {
     if (!cache || !schema_str) {
         return NULL;
     }
 
-    // Create a temporary schema ID
-    char* schema_id = create_schema_id(schema_str);
-    if (!schema_id) {
-        return NULL;
-    }
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = cache_add_locked(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(cache->cache_lock);
+    return schema;
+}
 
+// Find a schema in the cache. The caller holds the write lock, since a hit updates the LRU list.
+static mcp_compiled_schema_t* cache_find_locked(mcp_json_schema_cache_t* cache, const char* schema_str) {
     // Look up in hash table
     void* value = NULL;
-    if (mcp_hashtable_get(cache->schema_cache, schema_id, &value) == 0) {
+    if (mcp_hashtable_get(cache->schema_cache, schema_str, &value) == 0) {
         mcp_compiled_schema_t* schema = (mcp_compiled_schema_t*)value;
 
         if (schema) {
             // Cache hit
             cache->hits++;
 
-            // Upgrade to write lock to update LRU list
-            mcp_rwlock_read_unlock(cache->cache_lock);
-            mcp_rwlock_write_lock(cache->cache_lock);
-
             // Move to front of LRU list
             // Find the node containing this schema
             mcp_list_node_t* node = cache->lru_list->head;
@@ -398,24 +390,30 @@ mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache
             // Increment use count
             schema->use_count++;
 
-            mcp_rwlock_write_unlock(cache->cache_lock);
-
-            mcp_log_debug("Schema cache hit: %s", schema_id);
-            free(schema_id);
+            mcp_log_debug("Schema cache hit: %s", schema_str);
             return schema;
         }
     } else {
         // Cache miss
         cache->misses++;
 
-        mcp_rwlock_read_unlock(cache->cache_lock);
+        mcp_log_debug("Schema cache miss: %s", schema_str);
+    }
 
-        mcp_log_debug("Schema cache miss: %s", schema_id);
+    return NULL; // Return NULL for cache miss
+}
+
+// Find a schema in the cache
+mcp_compiled_schema_t* mcp_json_schema_cache_find(mcp_json_schema_cache_t* cache, const char* schema_str) {
+    if (!cache || !schema_str) {
+        return NULL;
     }
 
-    free(schema_id);
+    mcp_rwlock_write_lock(cache->cache_lock);
+    mcp_compiled_schema_t* schema = cache_find_locked(cache, schema_str);
+    mcp_rwlock_write_unlock(cache->cache_lock);
 
-    return NULL; // Return NULL for cache miss
+    return schema;
 }
 
 // Remove a schema from the cache
@@ -523,12 +521,17 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     mcp_log_debug("Validating JSON against schema");
 
+    // The lock is held until the verdict is in, so that another thread cannot evict
+    // the schema while it is being used
+    mcp_rwlock_write_lock(cache->cache_lock);
+
     // Try to find the schema in the cache
-    mcp_compiled_schema_t* schema = mcp_json_schema_cache_find(cache, schema_str);
+    mcp_compiled_schema_t* schema = cache_find_locked(cache, schema_str);
     if (!schema) {
         // Schema not found in cache, add it
-        schema = mcp_json_schema_cache_add(cache, schema_str);
+        schema = cache_add_locked(cache, schema_str);
         if (!schema) {
+            mcp_rwlock_write_unlock(cache->cache_lock);
             mcp_log_error("Failed to add schema to cache");
             return -1;
         }
@@ -536,6 +539,8 @@ int mcp_json_schema_validate(mcp_json_schema_cache_t* cache, const char* json_st
 
     // Validate JSON against the compiled schema
     int result = validate_with_compiled_schema(schema->compiled_schema, json_str);
+
+    mcp_rwlock_write_unlock(cache->cache_lock);
     mcp_log_debug("Validation result: %d", result);
     return result;
 }
-- 
2.43.0


From ced8a4762103290d5ab8f04411c2cca02f3ae294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:14 +0000
Subject: [PATCH 050/120] fix: create the global schema cache once

---
 src/json/mcp_json_schema_validate.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/json/mcp_json_schema_validate.c b/src/json/mcp_json_schema_validate.c
index f0b8b8c..bee40bc 100644
--- a/src/json/mcp_json_schema_validate.c
+++ b/src/json/mcp_json_schema_validate.c
@@ -2,11 +2,24 @@
 #include "internal/json_schema_cache.h"
 #include "mcp_log.h"
 
+#ifdef _WIN32
+#include <windows.h>
+static SRWLOCK g_schema_cache_lock = SRWLOCK_INIT;
+#define SCHEMA_CACHE_LOCK() AcquireSRWLockExclusive(&g_schema_cache_lock)
+#define SCHEMA_CACHE_UNLOCK() ReleaseSRWLockExclusive(&g_schema_cache_lock)
+#else
+#include <pthread.h>
+static pthread_mutex_t g_schema_cache_lock = PTHREAD_MUTEX_INITIALIZER;
+#define SCHEMA_CACHE_LOCK() pthread_mutex_lock(&g_schema_cache_lock)
+#define SCHEMA_CACHE_UNLOCK() pthread_mutex_unlock(&g_schema_cache_lock)
+#endif
+
 // Global schema cache
 static mcp_json_schema_cache_t* g_schema_cache = NULL;
 
-// Initialize the global schema cache
-static void init_global_schema_cache(void) {
+// Get the global schema cache, creating it on first use
+static mcp_json_schema_cache_t* get_global_schema_cache(void) {
+    SCHEMA_CACHE_LOCK();
     if (g_schema_cache == NULL) {
         g_schema_cache = mcp_json_schema_cache_create(100); // Default capacity
         if (g_schema_cache == NULL) {
@@ -15,18 +28,19 @@ static void init_global_schema_cache(void) {
             mcp_log_info("Initialized global schema cache");
         }
     }
+    mcp_json_schema_cache_t* cache = g_schema_cache;
+    SCHEMA_CACHE_UNLOCK();
+    return cache;
 }
 
 // Original schema validation function (placeholder)
 int mcp_json_validate_schema(const char* json_str, const char* schema_str) {
     // Initialize the global schema cache if needed
-    if (g_schema_cache == NULL) {
-        init_global_schema_cache();
-    }
+    mcp_json_schema_cache_t* cache = get_global_schema_cache();
 
     // If we have a cache, use it
-    if (g_schema_cache != NULL) {
-        return mcp_json_schema_validate(g_schema_cache, json_str, schema_str);
+    if (cache != NULL) {
+        return mcp_json_schema_validate(cache, json_str, schema_str);
     }
 
     // Fallback to placeholder implementation
-- 
2.43.0


From 3858a392743be41f811311f59f117462dbec3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:51 +0000
Subject: [PATCH 051/120] fix: free the lock of a destroyed schema cache

---
 src/json/mcp_json_schema_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json/mcp_json_schema_cache.c b/src/json/mcp_json_schema_cache.c
index c411863..863facd 100644
--- a/src/json/mcp_json_schema_cache.c
+++ b/src/json/mcp_json_schema_cache.c
@@ -251,7 +251,7 @@ mcp_json_schema_cache_t* mcp_json_schema_cache_create(size_t capacity) {
     cache->lru_list = mcp_list_create(MCP_LIST_NOT_THREAD_SAFE);
     if (!cache->lru_list) {
         mcp_log_error("Failed to create LRU list");
-        mcp_rwlock_destroy(cache->cache_lock);
+        mcp_rwlock_free(cache->cache_lock);
         mcp_hashtable_destroy(cache->schema_cache);
         free(cache);
         return NULL;
@@ -280,7 +280,7 @@ void mcp_json_schema_cache_destroy(mcp_json_schema_cache_t* cache) {
     mcp_list_destroy(cache->lru_list, free_compiled_schema_void_adapter);
 
     // Destroy the read-write lock
-    mcp_rwlock_destroy(cache->cache_lock);
+    mcp_rwlock_free(cache->cache_lock);
 
     // Destroy the hash table
     mcp_hashtable_destroy(cache->schema_cache);
-- 
2.43.0


From c84a41a35620ebb5b167427d3307a6685e9c2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:47 +0000
Subject: [PATCH 052/120] fix: do not log a plugin's name after its library is
 unloaded

---
 src/server/mcp_plugin.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/mcp_plugin.c b/src/server/mcp_plugin.c
index 0ff754a..f643e69 100644
--- a/src/server/mcp_plugin.c
+++ b/src/server/mcp_plugin.c
@@ -268,13 +268,14 @@ int mcp_plugin_unload(mcp_plugin_t* plugin) {
     }
 #endif
 
-    // Free the plugin structure itself
-    free_plugin(plugin);
-
+    // The name lived in the library that is now unmapped, so only the path can be logged
     if (unload_status == 0) {
-        mcp_log_info("Plugin '%s' unloaded successfully", plugin_name);
+        mcp_log_info("Plugin from %s unloaded successfully", plugin_path);
     }
 
+    // Free the plugin structure itself
+    free_plugin(plugin);
+
     // Return finalize status if unload was ok, otherwise return unload error status
     return (unload_status == 0) ? finalize_status : unload_status;
 }
-- 
2.43.0


From 269d3b8241339113b208e7039c2563fba6881a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 053/120] fix: do not hand out a pooled connection that was
 just closed

---
 src/connection_pool/mcp_connection_pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index fd2069c..008d931 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -159,6 +159,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->total_connections_closed++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
@@ -190,6 +191,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     pool->failed_health_checks++;
 
                     // Continue the loop to get another connection
+                    sock = INVALID_SOCKET_HANDLE;
                     continue;
                 }
             }
-- 
2.43.0


From 56b445fcd5990d315666705b5b7fe14941fc0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 054/120] fix: allocate and free connection pool nodes the same
 way

---
 .../internal/connection_pool_internal.h       |  2 +
 src/connection_pool/mcp_connection_pool.c     | 14 +++--
 .../mcp_connection_pool_maintenance.c         | 62 +++++++++++++------
 3 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 81e2605..45b0480 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -145,6 +145,8 @@ void* pool_maintenance_thread_func(void* arg);
 mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool, bool add_to_idle_list);
 bool remove_idle_connection(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn, mcp_pooled_connection_t* prev);
 void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn);
+mcp_pooled_connection_t* alloc_connection_node(mcp_connection_pool_t* pool);
+void free_connection_node(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn);
 
 // From mcp_connection_pool_health.c
 bool check_connection_health(socket_handle_t socket_fd, int timeout_ms);
diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 008d931..adbe1ef 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -1,6 +1,7 @@
 #include "internal/connection_pool_internal.h"
 #include "mcp_socket_utils.h"
 #include "mcp_sys_utils.h"
+#include "mcp_object_pool.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -150,7 +151,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     mcp_log_debug("Idle connection %d timed out (idle for %.1f seconds), closing.",
                                  (int)sock, idle_time_sec);
                     mcp_socket_close(sock);
-                    free(pooled_conn);
+                    free_connection_node(pool, pooled_conn);
 
                     // Update counts but keep total the same
                     pool->active_count--;
@@ -182,7 +183,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                     // Connection is unhealthy, close it and try to get another one
                     mcp_log_warn("Connection %d failed health check, closing.", (int)sock);
                     mcp_socket_close(sock);
-                    free(pooled_conn);
+                    free_connection_node(pool, pooled_conn);
 
                     // Update counts and statistics
                     pool->active_count--;
@@ -196,7 +197,7 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                 }
             }
 
-            free(pooled_conn); // Free the list node structure
+            free_connection_node(pool, pooled_conn); // Free the list node structure
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
             pool_unlock(pool);
             return sock;
@@ -299,7 +300,7 @@ int mcp_connection_pool_release(mcp_connection_pool_t* pool, socket_handle_t con
         pool_signal(pool);
     } else {
         // Add valid connection back to idle list
-        mcp_pooled_connection_t* pooled_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
+        mcp_pooled_connection_t* pooled_conn = alloc_connection_node(pool);
         if (pooled_conn) {
             // Initialize connection node
             pooled_conn->socket_fd = connection;
@@ -372,7 +373,7 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
         mcp_pooled_connection_t* next = current->next;
         mcp_socket_close(current->socket_fd);
         pool->total_connections_closed++;
-        free(current);
+        free_connection_node(pool, current);
         current = next;
     }
     pool->idle_head = NULL;
@@ -388,6 +389,9 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
 
     // 4. Destroy sync primitives and free memory
     destroy_sync_primitives(pool);
+    if (pool->conn_pool) {
+        mcp_object_pool_destroy(pool->conn_pool);
+    }
     free(pool->host);
     free(pool);
 
diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 904cd9c..1b55cfe 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -8,6 +8,44 @@
 #include <stdbool.h>
 #include <time.h>
 
+/**
+ * @brief Allocates a zeroed list node, from the object pool if there is one.
+ *
+ * The pool must be locked before calling this function.
+ *
+ * @param pool The connection pool.
+ * @return A pointer to the node, or NULL if allocation failed.
+ */
+mcp_pooled_connection_t* alloc_connection_node(mcp_connection_pool_t* pool) {
+    mcp_pooled_connection_t* conn;
+    if (pool->conn_pool) {
+        conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
+    } else {
+        conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
+    }
+
+    if (conn) {
+        memset(conn, 0, sizeof(mcp_pooled_connection_t));
+    }
+    return conn;
+}
+
+/**
+ * @brief Frees a list node allocated by alloc_connection_node.
+ *
+ * The pool must be locked before calling this function.
+ *
+ * @param pool The connection pool.
+ * @param conn The node to free.
+ */
+void free_connection_node(mcp_connection_pool_t* pool, mcp_pooled_connection_t* conn) {
+    if (pool->conn_pool) {
+        mcp_object_pool_release(pool->conn_pool, conn);
+    } else {
+        free(conn);
+    }
+}
+
 /**
  * @brief Creates a new connection and optionally adds it to the idle list.
  *
@@ -44,17 +82,8 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         return NULL;
     }
 
-    // Allocate connection structure from object pool if available
-    mcp_pooled_connection_t* new_conn = NULL;
-    if (pool->conn_pool) {
-        new_conn = (mcp_pooled_connection_t*)mcp_object_pool_acquire(pool->conn_pool);
-    }
-
-    // Fall back to malloc if object pool is not available or empty
-    if (!new_conn) {
-        new_conn = (mcp_pooled_connection_t*)malloc(sizeof(mcp_pooled_connection_t));
-    }
-
+    // Allocate connection structure
+    mcp_pooled_connection_t* new_conn = alloc_connection_node(pool);
     if (!new_conn) {
         // Failed to allocate node, close the connection
         mcp_log_error("Failed to allocate node for new connection %d", (int)new_sock);
@@ -169,15 +198,8 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     pool->total_count--;
     pool->total_connections_closed++;
 
-    // Return connection structure to object pool if available
-    if (pool->conn_pool) {
-        // Clear the structure before returning to pool
-        memset(conn, 0, sizeof(mcp_pooled_connection_t));
-        mcp_object_pool_release(pool->conn_pool, conn);
-    } else {
-        // Free the connection structure
-        free(conn);
-    }
+    // Free the connection structure
+    free_connection_node(pool, conn);
 
     mcp_log_debug("Closed and freed connection %d", (int)sock_fd);
 }
-- 
2.43.0


From 06b9274fb6572323fcc325c14bfb53eb3120ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 055/120] fix: do not wait for data in a connection health
 check

---
 src/connection_pool/mcp_connection_pool_health.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_health.c b/src/connection_pool/mcp_connection_pool_health.c
index 32d96eb..a8d84ba 100644
--- a/src/connection_pool/mcp_connection_pool_health.c
+++ b/src/connection_pool/mcp_connection_pool_health.c
@@ -23,9 +23,6 @@
 #include <errno.h>
 #endif
 
-// Default health check timeout if not specified
-#define DEFAULT_HEALTH_CHECK_TIMEOUT_MS 2000
-
 // Health score thresholds
 #define HEALTH_SCORE_HEALTHY 50       // Score above this is considered healthy
 #define HEALTH_SCORE_PERFECT 100      // Maximum health score
@@ -130,10 +127,9 @@ bool check_connection_health(socket_handle_t socket_fd, int timeout_ms) {
     // Start timing for performance measurement
     long long check_start_ms = mcp_get_time_ms();
 
-    // Use default timeout if not specified
-    if (timeout_ms <= 0) {
-        timeout_ms = DEFAULT_HEALTH_CHECK_TIMEOUT_MS;
-    }
+    // A healthy idle connection has nothing to read, so waiting for it to become readable
+    // would always take the whole timeout. What has arrived is known at once.
+    timeout_ms = 0;
 
     // Save current socket flags to restore later
 #ifdef _WIN32
-- 
2.43.0


From 14a751be08a53bb505541c736cf8b47840f4e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 056/120] fix: keep the pool locked while idle connections are
 checked

---
 src/connection_pool/mcp_connection_pool_health.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_health.c b/src/connection_pool/mcp_connection_pool_health.c
index a8d84ba..28e216e 100644
--- a/src/connection_pool/mcp_connection_pool_health.c
+++ b/src/connection_pool/mcp_connection_pool_health.c
@@ -291,8 +291,8 @@ int perform_health_checks(mcp_connection_pool_t* pool) {
         return 0;
     }
 
-    // Temporarily unlock the pool while performing health checks
-    pool_unlock(pool);
+    // The pool stays locked: a connection handed out meanwhile would have its blocking mode
+    // changed under its user, or be closed and its descriptor reused. The checks do not block.
 
     // Perform health checks on all connections in the batch
     bool health_results[MAX_BATCH_SIZE]; // Now using the #define MAX_BATCH_SIZE
@@ -301,9 +301,6 @@ int perform_health_checks(mcp_connection_pool_t* pool) {
         checked_count++;
     }
 
-    // Re-lock the pool
-    pool_lock(pool);
-
     // Update health check statistics
     pool->health_checks_performed += checked_count;
 
-- 
2.43.0


From 62025a639ee18240b2cfedc277fdafa127040fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 057/120] fix: restart the idle scan after the pool was
 unlocked, and wake waiters

---
 src/connection_pool/mcp_connection_pool_maintenance.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index 1b55cfe..af47f40 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -124,6 +124,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
             pool->idle_head = new_conn;
         }
         pool->idle_count++;
+        pool_signal(pool);
     }
 
     mcp_log_debug("Created new connection %d to %s:%d", (int)new_sock, pool->host, pool->port);
@@ -201,6 +202,9 @@ void close_and_free_connection(mcp_connection_pool_t* pool, mcp_pooled_connectio
     // Free the connection structure
     free_connection_node(pool, conn);
 
+    // A waiting caller may now create a connection of its own
+    pool_signal(pool);
+
     mcp_log_debug("Closed and freed connection %d", (int)sock_fd);
 }
 
@@ -258,13 +262,14 @@ void* pool_maintenance_thread_func(void* arg) {
 
                     // Remove from idle list
                     if (remove_idle_connection(pool, to_remove, prev)) {
-                        // Get next connection before closing current one
-                        current = (prev) ? prev->next : pool->idle_head;
-
                         // Close and free the connection
                         mcp_log_debug("Closing idle connection %d due to timeout (idle for %.1f seconds).",
                                      (int)to_remove->socket_fd, idle_time_sec);
                         close_and_free_connection(pool, to_remove);
+
+                        // The pool was unlocked meanwhile, so start over
+                        prev = NULL;
+                        current = pool->idle_head;
                     } else {
                         // Something went wrong, move to next
                         prev = current;
-- 
2.43.0


From e3a86f00e86a3057b2ba20221c76f16e59543435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 058/120] fix: fail at once when no connection exists and none
 can be created

---
 src/connection_pool/mcp_connection_pool.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index adbe1ef..c02fd9a 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -220,8 +220,11 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
             } else {
                 pool->total_count--; // Creation failed, decrement total count
                 mcp_log_warn("Failed to create new connection.");
-                // If creation fails, we might need to wait if timeout allows
-                if (timeout_ms == 0) {
+                pool->total_connection_errors++;
+                // The slot is free again for a caller that found the pool full meanwhile
+                pool_signal(pool);
+                // Waiting only helps if there is a connection that can be returned
+                if (timeout_ms == 0 || pool->total_count == 0) {
                     pool_unlock(pool);
                     return INVALID_SOCKET_HANDLE;
                 }
-- 
2.43.0


From 277ae8ef02f4157ecd19d7bfb8f0158ffeaf774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:35 +0000
Subject: [PATCH 059/120] fix: wait for callers to leave a connection pool
 before freeing it

---
 .../internal/connection_pool_internal.h       |  1 +
 src/connection_pool/mcp_connection_pool.c     | 44 ++++++++++++-------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/connection_pool/internal/connection_pool_internal.h b/src/connection_pool/internal/connection_pool_internal.h
index 45b0480..bf5527e 100644
--- a/src/connection_pool/internal/connection_pool_internal.h
+++ b/src/connection_pool/internal/connection_pool_internal.h
@@ -94,6 +94,7 @@ struct mcp_connection_pool {
     size_t idle_count;                  // Number of idle connections
     size_t active_count;                // Number of connections currently in use
     size_t total_count;                 // Total connections created (idle + active)
+    size_t callers;                     // Number of threads inside mcp_connection_pool_get
 
     // Performance statistics
     size_t total_connections_created;   // Total number of connections created over lifetime
diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index c02fd9a..2c65c86 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -93,24 +93,17 @@ mcp_connection_pool_t* mcp_connection_pool_create(
     return pool;
 }
 
-socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout_ms) {
-    if (!pool) {
-        mcp_log_error("mcp_connection_pool_get: Pool is NULL.");
-        return INVALID_SOCKET_HANDLE;
-    }
-
+// Gets a connection. The pool is locked on entry and on return.
+static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int timeout_ms) {
     socket_handle_t sock = INVALID_SOCKET_HANDLE;
     long long start_time_ms = 0; // For tracking overall timeout
     if (timeout_ms > 0) {
         start_time_ms = mcp_get_time_ms();
     }
 
-    pool_lock(pool);
-
     while (sock == INVALID_SOCKET_HANDLE) {
         if (pool->shutting_down) {
             mcp_log_warn("mcp_connection_pool_get: Pool is shutting down.");
-            pool_unlock(pool);
             return INVALID_SOCKET_HANDLE;
         }
 
@@ -199,7 +192,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
 
             free_connection_node(pool, pooled_conn); // Free the list node structure
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
-            pool_unlock(pool);
             return sock;
         }
 
@@ -213,7 +205,11 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
             socket_handle_t new_sock = create_new_connection(pool->host, pool->port, pool->connect_timeout_ms);
 
             pool_lock(pool); // Re-lock before checking result and updating state
-            if (new_sock != INVALID_SOCKET_HANDLE) {
+            if (new_sock != INVALID_SOCKET_HANDLE && pool->shutting_down) {
+                mcp_socket_close(new_sock);
+                pool->total_count--;
+                return INVALID_SOCKET_HANDLE;
+            } else if (new_sock != INVALID_SOCKET_HANDLE) {
                 pool->active_count++;
                 sock = new_sock; // Success! Loop will terminate.
                 mcp_log_debug("Created new connection %d.", (int)sock);
@@ -225,7 +221,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                 pool_signal(pool);
                 // Waiting only helps if there is a connection that can be returned
                 if (timeout_ms == 0 || pool->total_count == 0) {
-                    pool_unlock(pool);
                     return INVALID_SOCKET_HANDLE;
                 }
                 // Fall through to wait below
@@ -236,7 +231,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         if (sock == INVALID_SOCKET_HANDLE) {
              if (timeout_ms == 0) {
                  mcp_log_warn("mcp_connection_pool_get: Pool full and timeout is 0.");
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              }
 
@@ -246,7 +240,6 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
                  wait_timeout = timeout_ms - (int)elapsed_ms;
                  if (wait_timeout <= 0) {
                      mcp_log_warn("mcp_connection_pool_get: Timed out waiting for connection.");
-                     pool_unlock(pool);
                      return INVALID_SOCKET_HANDLE; // Overall timeout expired
                  }
              }
@@ -255,11 +248,9 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
              int wait_result = pool_wait(pool, wait_timeout);
              if (wait_result == 1) {
                  mcp_log_warn("mcp_connection_pool_get: Timed out waiting for condition.");
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              } else if (wait_result == -1) {
                  mcp_log_error("mcp_connection_pool_get: Error waiting for condition.");
-                 pool_unlock(pool);
                  return INVALID_SOCKET_HANDLE;
              }
              // If wait_result is 0, we were signaled or had a spurious wakeup, loop continues
@@ -267,6 +258,22 @@ socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout
         }
     } // End while loop
 
+    return sock;
+}
+
+socket_handle_t mcp_connection_pool_get(mcp_connection_pool_t* pool, int timeout_ms) {
+    if (!pool) {
+        mcp_log_error("mcp_connection_pool_get: Pool is NULL.");
+        return INVALID_SOCKET_HANDLE;
+    }
+
+    pool_lock(pool);
+    pool->callers++;
+    socket_handle_t sock = get_connection_locked(pool, timeout_ms);
+    pool->callers--;
+    if (pool->shutting_down) {
+        pool_broadcast(pool); // The destroying thread waits for the last caller to leave
+    }
     pool_unlock(pool);
     return sock;
 }
@@ -368,8 +375,11 @@ void mcp_connection_pool_destroy(mcp_connection_pool_t* pool) {
     // 2. Stop and join maintenance thread if it exists
     stop_maintenance_thread(pool);
 
-    // 3. Close idle connections and free resources
+    // 3. Wait for callers that were woken to leave, then close idle connections and free resources
     pool_lock(pool);
+    while (pool->callers > 0) {
+        pool_wait(pool, -1);
+    }
     mcp_log_info("Closing %zu idle connections.", pool->idle_count);
     mcp_pooled_connection_t* current = pool->idle_head;
     while(current) {
-- 
2.43.0


From 0dbafe52243883db4bafdf1b9dedc9ff2d19ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:20 +0000
Subject: [PATCH 060/120] fix: hand out pooled connections in blocking mode

---
 src/connection_pool/mcp_connection_pool_socket.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index d46e60a..94b549f 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -244,11 +244,10 @@ socket_handle_t create_new_connection(const char* host, int port, int connect_ti
             }
         }
 
-        // If we get here, connection succeeded
-        // Restore blocking mode if needed (uncomment if needed)
-        // if (!restore_socket_blocking(sock)) {
-        //     mcp_log_warn("Failed to restore blocking mode, but connection succeeded");
-        // }
+        // If we get here, connection succeeded. Users of the pool do blocking I/O.
+        if (!restore_socket_blocking(sock)) {
+            mcp_log_warn("Failed to restore blocking mode, but connection succeeded");
+        }
 
         break; // Successfully connected
     }
-- 
2.43.0


From 800c6a9a1277241f34abaf1acc9cd4d502507790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:20 +0000
Subject: [PATCH 061/120] fix: wait for pooled connections with poll

---
 .../mcp_connection_pool_socket.c               | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index 94b549f..41461a4 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -80,6 +80,7 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
     }
 
     // Wait for the socket to become writable (connection complete)
+#ifdef _WIN32
     fd_set write_fds, error_fds;
     FD_ZERO(&write_fds);
     FD_ZERO(&error_fds);
@@ -90,13 +91,16 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
     tv.tv_sec = timeout_ms / 1000;
     tv.tv_usec = (timeout_ms % 1000) * 1000;
 
-    int result;
-#ifdef _WIN32
     // Windows select first parameter is ignored
-    result = select(0, NULL, &write_fds, &error_fds, &tv);
+    int result = select(0, NULL, &write_fds, &error_fds, &tv);
 #else
-    // POSIX select needs max fd + 1
-    result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
+    // poll rather than select: a descriptor may be beyond FD_SETSIZE
+    struct pollfd pfd;
+    pfd.fd = sock;
+    pfd.events = POLLOUT;
+    pfd.revents = 0;
+
+    int result = poll(&pfd, 1, timeout_ms);
 #endif
 
     if (result == 0) {
@@ -104,10 +108,11 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
         mcp_log_warn("Connection timed out after %d ms", timeout_ms);
         return false;
     } else if (result < 0) {
-        mcp_log_error("select() failed: %d", mcp_socket_get_lasterror());
+        mcp_log_error("Waiting for the connection failed: %d", mcp_socket_get_lasterror());
         return false;
     }
 
+#ifdef _WIN32
     // Check if socket has an error
     if (FD_ISSET(sock, &error_fds)) {
         mcp_log_error("Socket has error condition");
@@ -119,6 +124,7 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
         mcp_log_error("Socket is not writable after select()");
         return false;
     }
+#endif
 
     // Check for socket error
     int error = 0;
-- 
2.43.0


From 92e9ec380915fd97e7c85d624eec9cc1ea9b9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:20 +0000
Subject: [PATCH 062/120] fix: initialize the DNS cache once

---
 .../mcp_connection_pool_dns_cache.c           | 38 ++++++++++++++-----
 .../mcp_connection_pool_socket.c              |  4 +-
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 0c0d224..910baf2 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -4,17 +4,25 @@
 #include <string.h>
 #include <errno.h>
 #include <stdint.h>
+#ifndef _WIN32
+#include <pthread.h>
+#endif
 
 // Global DNS cache instance
 MCP_CACHE_ALIGNED dns_cache_t g_dns_cache = {0};
 
-/**
- * @brief Initializes the DNS cache.
- *
- * This function initializes the global DNS cache, creating the mutex and
- * initializing all cache entries.
- */
-void dns_cache_init() {
+// Serializes the first use of the cache
+#ifdef _WIN32
+static SRWLOCK g_dns_cache_init_lock = SRWLOCK_INIT;
+#define DNS_CACHE_INIT_LOCK() AcquireSRWLockExclusive(&g_dns_cache_init_lock)
+#define DNS_CACHE_INIT_UNLOCK() ReleaseSRWLockExclusive(&g_dns_cache_init_lock)
+#else
+static pthread_mutex_t g_dns_cache_init_lock = PTHREAD_MUTEX_INITIALIZER;
+#define DNS_CACHE_INIT_LOCK() pthread_mutex_lock(&g_dns_cache_init_lock)
+#define DNS_CACHE_INIT_UNLOCK() pthread_mutex_unlock(&g_dns_cache_init_lock)
+#endif
+
+static void dns_cache_init_locked(void) {
     // Check if already initialized
     if (g_dns_cache.initialized) {
         return;
@@ -54,7 +62,7 @@ void dns_cache_init() {
             for (int j = 0; j < i; j++) {
                 mcp_mutex_destroy(g_dns_cache.entries[j].mutex);
             }
-            mcp_rwlock_destroy(g_dns_cache.rwlock);
+            mcp_rwlock_free(g_dns_cache.rwlock);
             mcp_mutex_destroy(g_dns_cache.mutex);
             return;
         }
@@ -64,6 +72,18 @@ void dns_cache_init() {
     mcp_log_info("DNS cache initialized with %d entries", DNS_CACHE_SIZE);
 }
 
+/**
+ * @brief Initializes the DNS cache.
+ *
+ * This function initializes the global DNS cache, creating the mutex and
+ * initializing all cache entries.
+ */
+void dns_cache_init() {
+    DNS_CACHE_INIT_LOCK();
+    dns_cache_init_locked();
+    DNS_CACHE_INIT_UNLOCK();
+}
+
 /**
  * @brief Cleans up the DNS cache.
  *
@@ -97,7 +117,7 @@ void dns_cache_cleanup() {
 
     mcp_mutex_unlock(g_dns_cache.mutex);
     mcp_mutex_destroy(g_dns_cache.mutex);
-    mcp_rwlock_destroy(g_dns_cache.rwlock);
+    mcp_rwlock_free(g_dns_cache.rwlock);
 
     g_dns_cache.initialized = false;
     mcp_log_info("DNS cache cleaned up");
diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index 41461a4..21a6c20 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -169,9 +169,7 @@ socket_handle_t create_new_connection(const char* host, int port, int connect_ti
     // It's generally not safe to call WSAStartup/WSACleanup per connection.
 
     // Initialize DNS cache if not already initialized
-    if (!g_dns_cache.initialized) {
-        dns_cache_init();
-    }
+    dns_cache_init();
 
     // Set up hints for the type of socket we want
     memset(&hints, 0, sizeof hints);
-- 
2.43.0


From 760f8812eedf760ab4576f74036fee5fd7f95fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:20 +0000
Subject: [PATCH 063/120] fix: choose the slot of a new DNS cache entry under
 the write lock

---
 .../mcp_connection_pool_dns_cache.c           | 65 +++++++++----------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 910baf2..e07bcf2 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -186,37 +186,14 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
-    int empty_slot = -1;
-    int oldest_slot = 0;
-    int least_used_slot = 0;
-    time_t oldest_time = current_time;
-    uint32_t least_hits = UINT32_MAX;
 
-    mcp_rwlock_read_lock(g_dns_cache.rwlock);
+    // A hit updates the shared statistics
+    mcp_rwlock_write_lock(g_dns_cache.rwlock);
 
     // Look for the hostname in the cache
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
-        // Track empty slots and replacement candidates
-        if (g_dns_cache.entries[i].hostname[0] == '\0') {
-            if (empty_slot == -1) {
-                empty_slot = i;
-            }
-        } else if (g_dns_cache.entries[i].ref_count == 0) {
-            // Track oldest entry
-            if (g_dns_cache.entries[i].timestamp < oldest_time) {
-                oldest_time = g_dns_cache.entries[i].timestamp;
-                oldest_slot = i;
-            }
-
-            // Track least frequently used entry
-            if (g_dns_cache.entries[i].hit_count < least_hits) {
-                least_hits = g_dns_cache.entries[i].hit_count;
-                least_used_slot = i;
-            }
-        }
-
         // Check if this entry matches our hostname and port
         if (g_dns_cache.entries[i].hostname[0] != '\0' &&
             strcmp(g_dns_cache.entries[i].hostname, cache_key) == 0) {
@@ -263,8 +240,8 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         mcp_mutex_unlock(g_dns_cache.entries[i].mutex);
     }
 
-    // Unlock read lock before potentially upgrading to write lock
-    mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+    // Unlock before a potentially slow lookup
+    mcp_rwlock_write_unlock(g_dns_cache.rwlock);
 
     // If not found in cache, perform DNS lookup
     if (!result) {
@@ -286,15 +263,25 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Update statistics
         g_dns_cache.misses++;
 
-        // Choose a slot for the new entry - prefer empty, then least used, then oldest
-        int slot;
-        if (empty_slot != -1) {
-            slot = empty_slot;
-        } else if (least_used_slot != oldest_slot) {
-            // If we have a least used slot that's different from oldest, prefer it
-            slot = least_used_slot;
-        } else {
-            slot = oldest_slot;
+        // Choose a slot for the new entry - prefer empty, then least used. Only now, under the
+        // write lock, is it certain that no one else fills or uses the slot.
+        int slot = -1;
+        uint32_t least_hits = UINT32_MAX;
+        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+            if (g_dns_cache.entries[i].hostname[0] == '\0') {
+                slot = i;
+                break;
+            }
+            if (g_dns_cache.entries[i].ref_count == 0 && g_dns_cache.entries[i].hit_count < least_hits) {
+                least_hits = g_dns_cache.entries[i].hit_count;
+                slot = i;
+            }
+        }
+
+        if (slot == -1) {
+            // Every entry is in use: the result is not cached, dns_cache_release frees it
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            return new_addr_info;
         }
 
         mcp_mutex_lock(g_dns_cache.entries[slot].mutex);
@@ -347,11 +334,13 @@ void dns_cache_release(struct addrinfo* addr_info) {
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
     // Find the entry containing this addr_info
+    bool found = false;
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
         if (g_dns_cache.entries[i].addr_info == addr_info) {
             // Found it, decrement reference count
+            found = true;
             if (g_dns_cache.entries[i].ref_count > 0) {
                 g_dns_cache.entries[i].ref_count--;
                 mcp_log_debug("Released DNS cache entry for %s (ref_count=%d, hits=%u)",
@@ -368,4 +357,8 @@ void dns_cache_release(struct addrinfo* addr_info) {
     }
 
     mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+
+    if (!found) {
+        freeaddrinfo(addr_info); // Never was in the cache
+    }
 }
-- 
2.43.0


From 4eca1fbb9e915246e285e5c6236d5fdf96fcdf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:30 +0000
Subject: [PATCH 064/120] fix: count all connections created, taken and closed

---
 src/connection_pool/mcp_connection_pool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index 2c65c86..ace2db9 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -126,7 +126,6 @@ static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int ti
             // Update counts
             pool->idle_count--;
             pool->active_count++;
-            pool->total_connection_gets++;
 
             // Get socket handle
             sock = pooled_conn->socket_fd;
@@ -191,6 +190,7 @@ static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int ti
             }
 
             free_connection_node(pool, pooled_conn); // Free the list node structure
+            pool->total_connection_gets++;
             mcp_log_debug("Reusing idle connection %d.", (int)sock);
             return sock;
         }
@@ -211,6 +211,8 @@ static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int ti
                 return INVALID_SOCKET_HANDLE;
             } else if (new_sock != INVALID_SOCKET_HANDLE) {
                 pool->active_count++;
+                pool->total_connections_created++;
+                pool->total_connection_gets++;
                 sock = new_sock; // Success! Loop will terminate.
                 mcp_log_debug("Created new connection %d.", (int)sock);
             } else {
@@ -301,11 +303,13 @@ int mcp_connection_pool_release(mcp_connection_pool_t* pool, socket_handle_t con
         mcp_log_info("Pool shutting down, closing connection %d.", (int)connection);
         mcp_socket_close(connection);
         pool->total_count--;
+        pool->total_connections_closed++;
         // No signal needed, broadcast happens in destroy
     } else if (!is_valid) {
         mcp_log_warn("Closing invalid connection %d.", (int)connection);
         mcp_socket_close(connection);
         pool->total_count--;
+        pool->total_connections_closed++;
         // Signal potentially waiting getters that a slot might be free for creation
         pool_signal(pool);
     } else {
@@ -346,6 +350,7 @@ int mcp_connection_pool_release(mcp_connection_pool_t* pool, socket_handle_t con
             mcp_log_error("Failed to allocate node for idle connection %d, closing.", (int)connection);
             mcp_socket_close(connection);
             pool->total_count--;
+            pool->total_connections_closed++;
             // Signal potentially waiting getters that a slot might be free for creation
             pool_signal(pool);
         }
-- 
2.43.0


From 0eafb38fc9d24a4ed433823eb4862996ccea0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:11 +0000
Subject: [PATCH 065/120] fix: wake a waiting caller when pool maintenance
 fails to connect

---
 src/connection_pool/mcp_connection_pool_maintenance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool_maintenance.c b/src/connection_pool/mcp_connection_pool_maintenance.c
index af47f40..cb98568 100644
--- a/src/connection_pool/mcp_connection_pool_maintenance.c
+++ b/src/connection_pool/mcp_connection_pool_maintenance.c
@@ -79,6 +79,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
         mcp_log_warn("Failed to create new connection to %s:%d", pool->host, pool->port);
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // The slot is free again
         return NULL;
     }
 
@@ -95,6 +96,7 @@ mcp_pooled_connection_t* create_and_add_connection(mcp_connection_pool_t* pool,
 
         pool->total_count--;
         pool->total_connection_errors++;
+        pool_signal(pool); // The slot is free again
         return NULL;
     }
 
-- 
2.43.0


From d86b4c027dcdc67a314f28adb914f3cf3b54af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:39 +0000
Subject: [PATCH 066/120] fix: pass on a signal that a timed-out pool caller
 may have consumed

---
 src/connection_pool/mcp_connection_pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index ace2db9..a0a690d 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -250,9 +250,11 @@ static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int ti
              int wait_result = pool_wait(pool, wait_timeout);
              if (wait_result == 1) {
                  mcp_log_warn("mcp_connection_pool_get: Timed out waiting for condition.");
+                 pool_signal(pool); // A wait that times out may have consumed a signal
                  return INVALID_SOCKET_HANDLE;
              } else if (wait_result == -1) {
                  mcp_log_error("mcp_connection_pool_get: Error waiting for condition.");
+                 pool_signal(pool);
                  return INVALID_SOCKET_HANDLE;
              }
              // If wait_result is 0, we were signaled or had a spurious wakeup, loop continues
-- 
2.43.0


From 063e29b51c97ed9ce15670b2a84f94a5ece0d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:39 +0000
Subject: [PATCH 067/120] fix: look for an idle connection again after a failed
 connection attempt

---
 src/connection_pool/mcp_connection_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool.c b/src/connection_pool/mcp_connection_pool.c
index a0a690d..152ffd3 100644
--- a/src/connection_pool/mcp_connection_pool.c
+++ b/src/connection_pool/mcp_connection_pool.c
@@ -221,6 +221,10 @@ static socket_handle_t get_connection_locked(mcp_connection_pool_t* pool, int ti
                 pool->total_connection_errors++;
                 // The slot is free again for a caller that found the pool full meanwhile
                 pool_signal(pool);
+                // A connection may have been returned while the pool was unlocked
+                if (pool->idle_head) {
+                    continue;
+                }
                 // Waiting only helps if there is a connection that can be returned
                 if (timeout_ms == 0 || pool->total_count == 0) {
                     return INVALID_SOCKET_HANDLE;
-- 
2.43.0


From 4347216c7e8f7d38c99d6c0cde54c1963fc9a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 068/120] fix: count a closed WebSocket connection once

The close handler lowered the number of active clients itself and then
called the cleanup function, which does so again.
---
 src/transport/mcp_websocket_server_callback.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 69c5d17..44f99ad 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -71,15 +71,16 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
             if (client) {
                 ws_server_lock_all_clients(data);
 
-                // Clear client data and update statistics
-                ws_server_clear_client_bit(data->client_bitmap, client->client_id, data->bitmap_size);
-                data->active_clients--;
-
-                mcp_log_ws_info("client %d disconnected (active: %u, max: %u)",
-                                client->client_id, data->active_clients, data->max_clients);
+                // The slot may already have been released by stop() or taken by another connection
+                if (client->wsi == wsi) {
+                    // Clear client data and update statistics
+                    ws_server_client_cleanup(client, data);
 
-                ws_server_client_cleanup(client, data);
+                    mcp_log_ws_info("client %d disconnected (active: %u, max: %u)",
+                                    client->client_id, data->active_clients, data->max_clients);
+                }
 
+                lws_set_opaque_user_data(wsi, NULL);
                 ws_server_unlock_all_clients(data);
             }
             break;
-- 
2.43.0


From d7f7f1067656db65c39a3f39b583e5b581dc50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 069/120] fix: do not resize or free WebSocket pool buffers as
 heap blocks

Whether a receive buffer came from the pool was guessed from its length.
Remember it instead, and copy out of a pool buffer when it is too small.
---
 .../internal/websocket_server_internal.h      |  1 +
 src/transport/mcp_websocket_server_client.c   | 28 ++++++++++++-------
 src/transport/mcp_websocket_transport.c       |  1 +
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/transport/internal/websocket_server_internal.h b/src/transport/internal/websocket_server_internal.h
index eb4193d..8bbf839 100644
--- a/src/transport/internal/websocket_server_internal.h
+++ b/src/transport/internal/websocket_server_internal.h
@@ -38,6 +38,7 @@ typedef struct {
     char* receive_buffer;           // Receive buffer
     size_t receive_buffer_len;      // Receive buffer length
     size_t receive_buffer_used;     // Used receive buffer length
+    bool receive_buffer_pooled;     // Receive buffer belongs to the server's buffer pool
     int client_id;                  // Client ID for tracking
     time_t last_activity;           // Time of last activity for timeout detection
     uint32_t ping_sent;             // Number of pings sent without response
diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 4dd2350..dba2167 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -11,6 +11,7 @@ int ws_server_client_init(ws_client_t* client, int client_id, struct lws* wsi) {
     client->receive_buffer = NULL;
     client->receive_buffer_len = 0;
     client->receive_buffer_used = 0;
+    client->receive_buffer_pooled = false;
     client->client_id = client_id;
     client->last_activity = time(NULL);
     client->ping_sent = 0;
@@ -26,13 +27,8 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
 
     // Free receive buffer
     if (client->receive_buffer) {
-        // Get buffer size from config or default
-        uint32_t buffer_size = server_data && server_data->config.buffer_size > 0 ?
-                              server_data->config.buffer_size : DEFAULT_BUFFER_POOL_BUFFER_SIZE;
-
-        // If buffer pool exists and buffer size matches pool buffer size, return to pool
-        if (server_data && server_data->buffer_pool &&
-            client->receive_buffer_len == buffer_size) {
+        // If the buffer came from the pool, return it to the pool
+        if (server_data && server_data->buffer_pool && client->receive_buffer_pooled) {
             mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
             mcp_log_debug("Returned buffer to pool for client %d", client->client_id);
         } else {
@@ -48,6 +44,7 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
         client->receive_buffer = NULL;
         client->receive_buffer_len = 0;
         client->receive_buffer_used = 0;
+        client->receive_buffer_pooled = false;
     }
 
     // Reset client state
@@ -121,7 +118,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Free old buffer if it exists
             if (client->receive_buffer) {
                 // If old buffer was from pool, return it to pool
-                if (client->receive_buffer_len == buffer_size && server_data->buffer_pool) {
+                if (client->receive_buffer_pooled) {
                     mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
                 } else {
                     free(client->receive_buffer);
@@ -134,6 +131,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
             // Update buffer information
             client->receive_buffer = new_buffer;
             client->receive_buffer_len = buffer_size;
+            client->receive_buffer_pooled = true;
             return 0;
         } else if (server_data) {
             // Failed to get buffer from pool
@@ -142,12 +140,22 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
     }
 
     // Fall back to regular allocation if pool is not available or buffer is too large
-    if (client->receive_buffer) {
+    if (client->receive_buffer && client->receive_buffer_pooled) {
+        // A pool buffer cannot be resized: move its contents and give it back
+        new_buffer = (char*)malloc(new_len);
+        if (new_buffer) {
+            memcpy(new_buffer, client->receive_buffer, client->receive_buffer_used);
+            mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
+            client->receive_buffer_pooled = false;
+            server_data->total_buffer_memory += new_len;
+            server_data->buffer_allocs++;
+        }
+    } else if (client->receive_buffer) {
         // Try to reuse existing buffer with realloc for better performance
         new_buffer = (char*)realloc(client->receive_buffer, new_len);
 
         // Update memory statistics if server_data is provided
-        if (server_data) {
+        if (server_data && new_buffer) {
             server_data->total_buffer_memory -= client->receive_buffer_len;
             server_data->total_buffer_memory += new_len;
             server_data->buffer_allocs++;
diff --git a/src/transport/mcp_websocket_transport.c b/src/transport/mcp_websocket_transport.c
index 5bba0d6..403047f 100644
--- a/src/transport/mcp_websocket_transport.c
+++ b/src/transport/mcp_websocket_transport.c
@@ -46,6 +46,7 @@ static int ws_server_transport_start(
         data->clients[i].receive_buffer = NULL;
         data->clients[i].receive_buffer_len = 0;
         data->clients[i].receive_buffer_used = 0;
+        data->clients[i].receive_buffer_pooled = false;
         data->clients[i].client_id = i;
         data->clients[i].last_activity = 0;
         data->clients[i].ping_sent = 0;
-- 
2.43.0


From 6944e741682d0568c495cb00749734a0cc63c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 070/120] fix: accept empty WebSocket fragments and look for
 the length prefix once per message

---
 src/transport/mcp_websocket_server_client.c | 59 ++++++++-------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index dba2167..e0c55cd 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -364,7 +364,7 @@ int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client
 // Handle received data
 int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* client,
     struct lws* wsi, void* in, size_t len, bool is_final) {
-    if (!data || !client || !wsi || !in || len == 0) {
+    if (!data || !client || !wsi || (!in && len > 0)) {
         return -1;
     }
 
@@ -400,45 +400,32 @@ int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* c
     }
 #endif
 
-    // Check if this might be a length-prefixed message
-    if (len >= 4) {
-        // Interpret first 4 bytes as a 32-bit length (network byte order)
-        uint32_t msg_len = 0;
-        // Convert from network byte order (big endian) to host byte order
-        msg_len = ((unsigned char)((char*)in)[0] << 24) |
-            ((unsigned char)((char*)in)[1] << 16) |
-            ((unsigned char)((char*)in)[2] << 8) |
-            ((unsigned char)((char*)in)[3]);
-
-#ifdef MCP_VERBOSE_DEBUG
-        // Log the extracted length
-        mcp_log_debug("Possible message length prefix: %u bytes (total received: %zu bytes)",
-            msg_len, len);
-#endif
-
-        // If this looks like a length-prefixed message, skip the length prefix
-        if (msg_len <= len - 4 && msg_len > 0) {
-            mcp_log_debug("Detected length-prefixed message, skipping 4-byte prefix");
-            // Copy data without the length prefix
-            memcpy(client->receive_buffer + client->receive_buffer_used,
-                (char*)in + 4, len - 4);
-            client->receive_buffer_used += (len - 4);
-
-            // Process the message immediately if it's a complete message
-            if (is_final) {
-                return ws_server_client_process_message(data, client, wsi);
-            }
-
-            return 0;  // Skip the rest of the processing
-        }
+    // Append this fragment; a fragment may be empty
+    if (len > 0) {
+        memcpy(client->receive_buffer + client->receive_buffer_used, in, len);
+        client->receive_buffer_used += len;
     }
 
-    // Normal copy if not a length-prefixed message or if length prefix check failed
-    memcpy(client->receive_buffer + client->receive_buffer_used, in, len);
-    client->receive_buffer_used += len;
-
     // Check if this is a complete message
     if (is_final) {
+        // Nothing to process in an empty message
+        if (client->receive_buffer_used == 0) {
+            return 0;
+        }
+
+        // The message may carry its length as a 4-byte prefix (network byte order)
+        if (client->receive_buffer_used > 4) {
+            const unsigned char* prefix = (const unsigned char*)client->receive_buffer;
+            uint32_t msg_len = ((uint32_t)prefix[0] << 24) | ((uint32_t)prefix[1] << 16) |
+                ((uint32_t)prefix[2] << 8) | (uint32_t)prefix[3];
+
+            if (msg_len == client->receive_buffer_used - 4) {
+                mcp_log_debug("Detected length-prefixed message, skipping 4-byte prefix");
+                client->receive_buffer_used -= 4;
+                memmove(client->receive_buffer, client->receive_buffer + 4, client->receive_buffer_used);
+            }
+        }
+
         return ws_server_client_process_message(data, client, wsi);
     }
 
-- 
2.43.0


From a0fbcce5469df414801ab4415dfbd47981f347fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 071/120] fix: use an unsigned shift when scanning the
 WebSocket client bitmap

---
 src/transport/mcp_websocket_server_event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/mcp_websocket_server_event.c b/src/transport/mcp_websocket_server_event.c
index 5bd4af8..407e657 100644
--- a/src/transport/mcp_websocket_server_event.c
+++ b/src/transport/mcp_websocket_server_event.c
@@ -72,7 +72,7 @@ void ws_server_cleanup_inactive_clients(ws_server_data_t* data) {
 
         // Process only active bits in this word
         for (int j = 0; j < 32; j++) {
-            if ((word & (1 << j)) == 0) {
+            if ((word & (1U << j)) == 0) {
                 continue; // Skip inactive slots
             }
 
-- 
2.43.0


From 3571888bcb2762984f66d5d3b62051e77c8573c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 072/120] fix: write WebSocket responses only when the
 connection is writable

libwebsockets allows one write per writeable callback. Queue responses
per client and write them from that callback.
---
 .../internal/websocket_server_internal.h      | 10 ++++
 src/transport/mcp_websocket_server_callback.c |  4 +-
 src/transport/mcp_websocket_server_client.c   | 59 +++++++++++++++----
 src/transport/mcp_websocket_transport.c       |  2 +
 4 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/src/transport/internal/websocket_server_internal.h b/src/transport/internal/websocket_server_internal.h
index 8bbf839..3729598 100644
--- a/src/transport/internal/websocket_server_internal.h
+++ b/src/transport/internal/websocket_server_internal.h
@@ -31,6 +31,13 @@ typedef enum {
     WS_CLIENT_STATE_ERROR           // Client encountered an error
 } ws_client_state_t;
 
+// Response waiting until the connection can be written
+typedef struct ws_server_send_item {
+    struct ws_server_send_item* next; // Next response of the same client
+    size_t len;                     // Length of the response
+    unsigned char data[];           // LWS_PRE bytes followed by the response
+} ws_server_send_item_t;
+
 // WebSocket client connection information
 typedef struct {
     struct lws* wsi;                // libwebsockets connection handle
@@ -38,6 +45,8 @@ typedef struct {
     char* receive_buffer;           // Receive buffer
     size_t receive_buffer_len;      // Receive buffer length
     size_t receive_buffer_used;     // Used receive buffer length
+    ws_server_send_item_t* send_head; // Oldest response not written yet
+    ws_server_send_item_t* send_tail; // Newest response not written yet
     bool receive_buffer_pooled;     // Receive buffer belongs to the server's buffer pool
     int client_id;                  // Client ID for tracking
     time_t last_activity;           // Time of last activity for timeout detection
@@ -105,6 +114,7 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
 void ws_server_client_update_activity(ws_client_t* client);
 int ws_server_client_send_ping(ws_client_t* client);
 int ws_server_client_send_response(ws_client_t* client, struct lws* wsi, const char* response, size_t response_len);
+int ws_server_client_write_pending(ws_client_t* client, struct lws* wsi);
 int ws_server_client_process_message(ws_server_data_t* data, ws_client_t* client, struct lws* wsi);
 int ws_server_client_handle_received_data(ws_server_data_t* data, ws_client_t* client, struct lws* wsi, void* in, size_t len, bool is_final);
 
diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 44f99ad..f49b5b4 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -134,7 +134,9 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
 
             // Update activity timestamp
             ws_server_client_update_activity(client);
-            break;
+
+            // Write the oldest pending response
+            return ws_server_client_write_pending(client, wsi);
         }
 
         case LWS_CALLBACK_HTTP: {
diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index e0c55cd..8103b9f 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -12,6 +12,8 @@ int ws_server_client_init(ws_client_t* client, int client_id, struct lws* wsi) {
     client->receive_buffer_len = 0;
     client->receive_buffer_used = 0;
     client->receive_buffer_pooled = false;
+    client->send_head = NULL;
+    client->send_tail = NULL;
     client->client_id = client_id;
     client->last_activity = time(NULL);
     client->ping_sent = 0;
@@ -47,6 +49,14 @@ void ws_server_client_cleanup(ws_client_t* client, ws_server_data_t* server_data
         client->receive_buffer_pooled = false;
     }
 
+    // Drop responses that were never written
+    while (client->send_head) {
+        ws_server_send_item_t* item = client->send_head;
+        client->send_head = item->next;
+        free(item);
+    }
+    client->send_tail = NULL;
+
     // Reset client state
     client->state = WS_CLIENT_STATE_INACTIVE;
     client->wsi = NULL;
@@ -278,36 +288,61 @@ ws_client_t* ws_server_find_client_by_wsi(ws_server_data_t* data, struct lws* ws
     return NULL;
 }
 
-// Send a response to a client with optimized buffer handling
+// Queue a response; it is written when the connection becomes writable
 int ws_server_client_send_response(ws_client_t* client, struct lws* wsi, const char* response, size_t response_len) {
     if (!client || !wsi || !response || response_len == 0) {
         return -1;
     }
 
     // Always use heap allocation for WebSocket buffer to avoid MSVC stack array issues
-    unsigned char* buffer = (unsigned char*)malloc(LWS_PRE + response_len);
-    if (!buffer) {
+    ws_server_send_item_t* item = (ws_server_send_item_t*)malloc(sizeof(ws_server_send_item_t) + LWS_PRE + response_len);
+    if (!item) {
         mcp_log_error("Failed to allocate WebSocket response buffer of size %zu", response_len);
         return -1;
     }
 
     // Copy response data
-    memcpy(buffer + LWS_PRE, response, response_len);
+    item->next = NULL;
+    item->len = response_len;
+    memcpy(item->data + LWS_PRE, response, response_len);
+
+    if (client->send_tail) {
+        client->send_tail->next = item;
+    } else {
+        client->send_head = item;
+    }
+    client->send_tail = item;
 
-    // Send data directly
-    int result = lws_write(wsi, buffer + LWS_PRE, response_len, LWS_WRITE_TEXT);
+    // Update activity timestamp
+    ws_server_client_update_activity(client);
 
-    // Free buffer
-    free(buffer);
+    lws_callback_on_writable(wsi);
+    return 0;
+}
+
+// Write the oldest queued response of a writable connection
+int ws_server_client_write_pending(ws_client_t* client, struct lws* wsi) {
+    ws_server_send_item_t* item = client->send_head;
+    if (!item) {
+        return 0;
+    }
+
+    client->send_head = item->next;
+    if (!client->send_head) {
+        client->send_tail = NULL;
+    }
+
+    int result = lws_write(wsi, item->data + LWS_PRE, item->len, LWS_WRITE_TEXT);
+    free(item);
 
     if (result < 0) {
-        mcp_log_error("WebSocket server direct write failed");
+        mcp_log_error("WebSocket server write failed");
         return -1;
     }
 
-    // Update activity timestamp
-    ws_server_client_update_activity(client);
-
+    if (client->send_head) {
+        lws_callback_on_writable(wsi);
+    }
     return 0;
 }
 
diff --git a/src/transport/mcp_websocket_transport.c b/src/transport/mcp_websocket_transport.c
index 403047f..0b4f1bd 100644
--- a/src/transport/mcp_websocket_transport.c
+++ b/src/transport/mcp_websocket_transport.c
@@ -47,6 +47,8 @@ static int ws_server_transport_start(
         data->clients[i].receive_buffer_len = 0;
         data->clients[i].receive_buffer_used = 0;
         data->clients[i].receive_buffer_pooled = false;
+        data->clients[i].send_head = NULL;
+        data->clients[i].send_tail = NULL;
         data->clients[i].client_id = i;
         data->clients[i].last_activity = 0;
         data->clients[i].ping_sent = 0;
-- 
2.43.0


From e73523e38916d9d23e196125550a0b4926705099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:39 +0000
Subject: [PATCH 073/120] fix: align memory pool blocks like malloc

---
 src/common/mcp_memory_pool.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index f6a7d47..fb07bb9 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -17,8 +17,13 @@
 // Magic value to identify blocks allocated from pools
 #define MCP_POOL_MAGIC 0xABCD1234
 
-// Alignment of every block
-#define MCP_POOL_ALIGNMENT 8
+// Alignment of every block, as for malloc
+#define MCP_POOL_ALIGNMENT 16
+#define MCP_POOL_ALIGN(size) (((size) + MCP_POOL_ALIGNMENT - 1) & ~(size_t)(MCP_POOL_ALIGNMENT - 1))
+
+// Distance from the header of a block (or chunk) to what follows it
+#define MCP_BLOCK_HEADER_SIZE MCP_POOL_ALIGN(sizeof(mcp_block_header_t))
+#define MCP_CHUNK_HEADER_SIZE MCP_POOL_ALIGN(sizeof(mcp_pool_chunk_t))
 
 // Structure to track memory block metadata
 typedef struct mcp_block_header {
@@ -111,7 +116,7 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
         return NULL;
     }
 
-    if (block_size > SIZE_MAX - sizeof(mcp_block_header_t) - (MCP_POOL_ALIGNMENT - 1)) {
+    if (block_size > SIZE_MAX - MCP_BLOCK_HEADER_SIZE - (MCP_POOL_ALIGNMENT - 1)) {
         mcp_log_error("Block size too large: %zu bytes", block_size);
         return NULL;
     }
@@ -124,7 +129,7 @@ mcp_memory_pool_t* mcp_memory_pool_create(size_t block_size, size_t initial_bloc
     }
 
     // Initialize pool properties
-    pool->block_size = (block_size + sizeof(mcp_block_header_t) + MCP_POOL_ALIGNMENT - 1) & ~(size_t)(MCP_POOL_ALIGNMENT - 1);
+    pool->block_size = MCP_POOL_ALIGN(block_size + MCP_BLOCK_HEADER_SIZE);
     pool->user_block_size = block_size;
     pool->initial_blocks = initial_blocks;
     pool->max_blocks = max_blocks;
@@ -363,16 +368,16 @@ bool mcp_pool_get_stats(mcp_pool_size_class_t size_class, mcp_memory_pool_stats_
 // Obtains memory for block_count more blocks and puts them on the free list.
 // The caller holds the pool lock (or is the only user of the pool).
 static bool add_chunk(mcp_memory_pool_t* pool, size_t block_count) {
-    if (block_count > (SIZE_MAX - sizeof(mcp_pool_chunk_t)) / pool->block_size) {
+    if (block_count > (SIZE_MAX - MCP_CHUNK_HEADER_SIZE) / pool->block_size) {
         return false;
     }
 
     size_t data_size = block_count * pool->block_size;
-    mcp_pool_chunk_t* chunk = (mcp_pool_chunk_t*)malloc(sizeof(mcp_pool_chunk_t) + data_size);
+    mcp_pool_chunk_t* chunk = (mcp_pool_chunk_t*)malloc(MCP_CHUNK_HEADER_SIZE + data_size);
     if (!chunk) {
         return false;
     }
-    char* data = (char*)(chunk + 1);
+    char* data = (char*)chunk + MCP_CHUNK_HEADER_SIZE;
 
     // Register the address range, keeping the table sorted
     region_write_lock();
@@ -477,7 +482,7 @@ static void* allocate_from_pool(mcp_memory_pool_t* pool) {
     mcp_mutex_unlock(pool->lock);
 
     // Return the user data portion of the block
-    return (char*)header + sizeof(mcp_block_header_t);
+    return (char*)header + MCP_BLOCK_HEADER_SIZE;
 }
 
 // Helper function to return a block to a pool
@@ -491,7 +496,7 @@ static bool return_to_pool(mcp_memory_pool_t* pool, void* block) {
     }
 
     // Get the header from the user block
-    mcp_block_header_t* header = (mcp_block_header_t*)((char*)block - sizeof(mcp_block_header_t));
+    mcp_block_header_t* header = (mcp_block_header_t*)((char*)block - MCP_BLOCK_HEADER_SIZE);
 
     if (header->magic != MCP_POOL_MAGIC || header->pool != pool) {
         mcp_log_error("Attempt to return invalid block to memory pool");
-- 
2.43.0


From 84054bf36332c3b9af26c30473519b251bed02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:56 +0000
Subject: [PATCH 074/120] fix: release the body of every HTTP request

---
 src/transport/mcp_http_server_callbacks.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 4c5b483..719543a 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1470,21 +1470,29 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
 
     mcp_log_info("HTTP body completion");
 
+    // Take over the request: the session does not outlive the end of the transaction
+    char* request = session->request_buffer;
+    size_t request_len = session->request_len;
+    session->request_buffer = NULL;
+    session->request_len = 0;
+
     // Check if we have a request buffer
-    if (session->request_buffer == NULL || session->request_len == 0) {
+    if (request == NULL || request_len == 0) {
         mcp_log_error("No request buffer or empty request");
+        free(request);
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Empty request");
     }
 
-    mcp_log_debug("Processing request body: %zu bytes", session->request_len);
+    mcp_log_debug("Processing request body: %zu bytes", request_len);
 
     // Process the request using the message callback
     if (data->message_callback != NULL) {
         int error_code = 0;
         char* response = data->message_callback(data->callback_user_data,
-                                              session->request_buffer,
-                                              session->request_len,
+                                              request,
+                                              request_len,
                                               &error_code);
+        free(request);
 
         // Handle successful response
         if (response != NULL) {
@@ -1580,6 +1588,7 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
     // No message callback registered
     else {
         mcp_log_error("No message callback registered");
+        free(request);
         return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR,
                                        "No message handler registered");
     }
-- 
2.43.0


From a0d4eb91bf4fa85a2adf4dde45ed1d830b5a7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:56 +0000
Subject: [PATCH 075/120] fix: release the body of every streamable HTTP
 request

---
 src/transport/mcp_sthttp_threads.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..a08e3d1 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -239,9 +239,16 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Request body required");
     }
 
+    // Take over the request: the session data does not outlive the end of the transaction
+    char* request_body = session_data->request_body;
+    session_data->request_body = NULL;
+    session_data->request_body_size = 0;
+    session_data->request_body_capacity = 0;
+
     // Process the JSON-RPC request
-    char* response = process_jsonrpc_request(data, session_data->request_body, 
+    char* response = process_jsonrpc_request(data, request_body,
                                            session_data->has_session ? session_data->session_id : NULL);
+    free(request_body);
     if (response == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process request");
     }
-- 
2.43.0


From f119681e693d5a5731ef94c855394b2fdd03e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 076/120] fix: send the length of streamable HTTP error
 responses

---
 src/transport/mcp_sthttp_utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 9fae4cb..1db60a1 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -367,6 +367,12 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
         return -1;
     }
 
+    // Without its length a client on a kept connection waits for the end of the body
+    const char* body = message ? message : status_text;
+    if (lws_add_http_header_content_length(wsi, strlen(body), &p, end)) {
+        return -1;
+    }
+
     if (lws_finalize_http_header(wsi, &p, end)) {
         return -1;
     }
@@ -377,7 +383,6 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
     }
 
     // Write body
-    const char* body = message ? message : status_text;
     if (lws_write(wsi, (unsigned char*)body, strlen(body), LWS_WRITE_HTTP) < 0) {
         return -1;
     }
-- 
2.43.0


From cf8fa1556692a89541f26597486bc3923d276817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 077/120] fix: deliver JSON-RPC error answers over streamable
 HTTP

---
 src/transport/mcp_sthttp_threads.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index a08e3d1..62228d5 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -142,11 +142,8 @@ char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request
                                           strlen(request_json), 
                                           &error_code);
     if (error_code != 0) {
+        // A response that comes with an error code is the JSON-RPC error answer
         mcp_log_error("Message callback returned error: %d", error_code);
-        if (response) {
-            free(response);
-            response = NULL;
-        }
     }
 
     // Log the session context if provided
-- 
2.43.0


From 3d2570ee8ec54e2f7466ddb1205d18846160e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 078/120] fix: answer notifications over HTTP with 202 Accepted

---
 .../internal/sthttp_transport_internal.h      |  8 +++-
 src/transport/mcp_http_server_callbacks.c     |  4 ++
 src/transport/mcp_sthttp_threads.c            | 26 +++++++----
 src/transport/mcp_sthttp_utils.c              | 45 +++++++++++++++++++
 4 files changed, 74 insertions(+), 9 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index f3a1353..41bd73c 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -316,6 +316,11 @@ int send_http_error_response(struct lws* wsi, int status_code, const char* messa
  */
 int send_http_json_response(struct lws* wsi, const char* json_data, const char* session_id);
 
+/**
+ * @brief Send HTTP response without a body
+ */
+int send_http_empty_response(struct lws* wsi, int status_code, const char* session_id);
+
 /**
  * @brief Send SSE event
  */
@@ -354,7 +359,8 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data);
 /**
  * @brief Process JSON-RPC request and generate response
  */
-char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id);
+char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, size_t request_len,
+                              const char* session_id, int* error_code);
 
 /**
  * @brief Extract session ID from headers
diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 719543a..832495c 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1560,6 +1560,10 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
             }
             return 0;
         }
+        // A notification has no answer
+        else if (error_code == 0) {
+            return send_http_response(wsi, 202 /* Accepted */, HTTP_CONTENT_TYPE_JSON, "", 0);
+        }
         // Handle error response
         else {
             mcp_log_error("Message callback returned error: %d", error_code);
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 62228d5..8f998c2 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -125,7 +125,9 @@ void* sthttp_cleanup_thread_func(void* arg) {
 /**
  * @brief Process JSON-RPC request and generate response
  */
-char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, const char* session_id) {
+char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request_json, size_t request_len,
+                              const char* session_id, int* error_code) {
+    *error_code = -1;
     if (data == NULL || request_json == NULL) {
         return NULL;
     }
@@ -136,14 +138,14 @@ char* process_jsonrpc_request(sthttp_transport_data_t* data, const char* request
     }
 
     // Call the message callback to process the request
-    int error_code = 0;
+    *error_code = 0;
     char* response = data->message_callback(data->callback_user_data, 
                                           request_json, 
-                                          strlen(request_json), 
-                                          &error_code);
-    if (error_code != 0) {
+                                          request_len,
+                                          error_code);
+    if (*error_code != 0) {
         // A response that comes with an error code is the JSON-RPC error answer
-        mcp_log_error("Message callback returned error: %d", error_code);
+        mcp_log_error("Message callback returned error: %d", *error_code);
     }
 
     // Log the session context if provided
@@ -238,14 +240,22 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
 
     // Take over the request: the session data does not outlive the end of the transaction
     char* request_body = session_data->request_body;
+    size_t request_body_size = session_data->request_body_size;
     session_data->request_body = NULL;
     session_data->request_body_size = 0;
     session_data->request_body_capacity = 0;
 
     // Process the JSON-RPC request
-    char* response = process_jsonrpc_request(data, request_body,
-                                           session_data->has_session ? session_data->session_id : NULL);
+    int error_code = 0;
+    char* response = process_jsonrpc_request(data, request_body, request_body_size,
+                                           session_data->has_session ? session_data->session_id : NULL,
+                                           &error_code);
     free(request_body);
+    if (response == NULL && error_code == 0) {
+        // A notification has no answer
+        return send_http_empty_response(wsi, HTTP_STATUS_ACCEPTED,
+                                        session_data->has_session ? session_data->session_id : NULL);
+    }
     if (response == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process request");
     }
diff --git a/src/transport/mcp_sthttp_utils.c b/src/transport/mcp_sthttp_utils.c
index 1db60a1..854ff80 100644
--- a/src/transport/mcp_sthttp_utils.c
+++ b/src/transport/mcp_sthttp_utils.c
@@ -464,6 +464,51 @@ int send_http_json_response(struct lws* wsi, const char* json_data, const char*
     return 0;
 }
 
+/**
+ * @brief Send HTTP response without a body
+ */
+int send_http_empty_response(struct lws* wsi, int status_code, const char* session_id) {
+    if (wsi == NULL) {
+        return -1;
+    }
+
+    unsigned char headers[512];
+    unsigned char* p = headers;
+    unsigned char* end = headers + sizeof(headers);
+
+    if (lws_add_http_header_status(wsi, status_code, &p, end)) {
+        return -1;
+    }
+
+    if (lws_add_http_header_content_length(wsi, 0, &p, end)) {
+        return -1;
+    }
+
+    // Add session ID header if provided
+    if (session_id != NULL) {
+        if (lws_add_http_header_by_name(wsi, (unsigned char*)MCP_SESSION_HEADER_NAME,
+                                       (unsigned char*)session_id, (int)strlen(session_id), &p, end)) {
+            return -1;
+        }
+    }
+
+    if (lws_finalize_http_header(wsi, &p, end)) {
+        return -1;
+    }
+
+    // Write headers
+    if (lws_write(wsi, headers, p - headers, LWS_WRITE_HTTP_HEADERS) < 0) {
+        return -1;
+    }
+
+    // Complete transaction
+    if (lws_http_transaction_completed(wsi)) {
+        return -1;
+    }
+
+    return 0;
+}
+
 /**
  * @brief Send SSE event
  */
-- 
2.43.0


From 2864c49a1088203ecde3d4ef6193eb7609b55b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 079/120] fix: close HTTP connections that end with the
 exchange

---
 src/transport/mcp_http_server_callbacks.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 832495c..64e4541 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -387,6 +387,7 @@ static int send_http_response(struct lws* wsi, int status_code, const char* cont
     int should_close = lws_http_transaction_completed(wsi);
     if (should_close) {
         mcp_log_debug("HTTP handler: Transaction completed, connection will close");
+        return -1;
     }
 
     return 0;
@@ -1557,6 +1558,7 @@ static int handle_http_body_completion(struct lws* wsi, http_transport_data_t* d
             int should_close = lws_http_transaction_completed(wsi);
             if (should_close) {
                 mcp_log_debug("HTTP handler: Transaction completed, connection will close");
+                return -1;
             }
             return 0;
         }
-- 
2.43.0


From 8d996d49111460485992acc0ab6b891d1e4e03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 080/120] fix: wait for the body of requests to the legacy tool
 endpoint

---
 src/transport/mcp_sthttp_callbacks.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..71e7add 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -65,7 +65,7 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
 
             // Now process the POST request with complete body
             mcp_log_debug("Processing completed POST request for URI: %s", session->request_uri);
-            if (strcmp(session->request_uri, data->mcp_endpoint) == 0) {
+            if (session->request_uri[0] != '\0') {
                 mcp_log_debug("Calling handle_mcp_endpoint_request for POST with body");
                 int result = handle_mcp_endpoint_request(wsi, data, session);
                 mcp_log_debug("handle_mcp_endpoint_request returned: %d", result);
@@ -119,8 +119,9 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
         return -1;
     }
 
-    // Check if this is the MCP endpoint
-    if (strcmp(uri, data->mcp_endpoint) == 0) {
+    // Check if this is the MCP endpoint (or its legacy name)
+    if (strcmp(uri, data->mcp_endpoint) == 0 ||
+        (data->config.enable_legacy_endpoints && strcmp(uri, "/call_tool") == 0)) {
         // For POST requests, we need to wait for the body
         char method[16] = {0};
 
@@ -150,13 +151,6 @@ static int handle_http_request(struct lws* wsi, sthttp_transport_data_t* data,
 
     // Check for legacy endpoints if enabled
     if (data->config.enable_legacy_endpoints) {
-        // Handle legacy /call_tool endpoint
-        if (strcmp(uri, "/call_tool") == 0) {
-            mcp_log_info("Legacy /call_tool endpoint accessed");
-            // Redirect to MCP endpoint or handle directly
-            return handle_mcp_endpoint_request(wsi, data, session);
-        }
-
         // Handle legacy /events endpoint
         if (strcmp(uri, "/events") == 0) {
             mcp_log_info("Legacy /events endpoint accessed");
-- 
2.43.0


From 0e61eaac274bbf904ea3267173f3f927a14c2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 081/120] fix: do not write the URI of unusual requests through
 NULL

---
 src/transport/mcp_sthttp_threads.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 8f998c2..b1126f9 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -176,7 +176,9 @@ int handle_mcp_endpoint_request(struct lws* wsi, sthttp_transport_data_t* data,
         strncpy(method, "OPTIONS", sizeof(method) - 1);
     } else {
         // Try to determine method from other headers
-        int method_idx = lws_http_get_uri_and_method(wsi, NULL, NULL);
+        char* uri_ptr = NULL;
+        int uri_len = 0;
+        int method_idx = lws_http_get_uri_and_method(wsi, &uri_ptr, &uri_len);
         switch (method_idx) {
             case LWSHUMETH_GET:
                 strncpy(method, "GET", sizeof(method) - 1);
-- 
2.43.0


From ef79d0b1fbd5c50840f5dbf28d7c0af5a941abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 082/120] fix: state the length of the root and not-found pages

---
 src/transport/mcp_http_server_callbacks.c | 50 +++++++++++------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 64e4541..4e254b8 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -796,17 +796,6 @@ static int handle_http_root_request(struct lws* wsi) {
     unsigned char* p = &buffer[LWS_PRE];
     unsigned char* end = &buffer[sizeof(buffer) - 1];
 
-    // Add headers
-    if (lws_add_http_common_headers(wsi, HTTP_STATUS_OK,
-                                   "text/html",
-                                   LWS_ILLEGAL_HTTP_CONTENT_LEN, &p, end)) {
-        return -1;
-    }
-
-    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
-        return -1;
-    }
-
     // Create a simple HTML page
     const char* html =
         "<!DOCTYPE html>\n"
@@ -902,12 +891,22 @@ static int handle_http_root_request(struct lws* wsi) {
         "</body>\n"
         "</html>\n";
 
+    // Add headers
+    if (lws_add_http_common_headers(wsi, HTTP_STATUS_OK,
+                                   "text/html",
+                                   strlen(html), &p, end)) {
+        return -1;
+    }
+
+    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
+        return -1;
+    }
+
     // Write response body
     lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
 
     // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return lws_http_transaction_completed(wsi) ? -1 : 0;
 }
 
 // Handle tool call request
@@ -1308,17 +1307,6 @@ static int handle_http_404(struct lws* wsi, const char* uri) {
     unsigned char* p = &buffer[LWS_PRE];
     unsigned char* end = &buffer[sizeof(buffer) - 1];
 
-    // Add headers
-    if (lws_add_http_common_headers(wsi, HTTP_STATUS_NOT_FOUND,
-                                   "text/html",
-                                   LWS_ILLEGAL_HTTP_CONTENT_LEN, &p, end)) {
-        return -1;
-    }
-
-    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
-        return -1;
-    }
-
     // Create a simple 404 page
     const char* html =
         "<!DOCTYPE html>\n"
@@ -1332,12 +1320,22 @@ static int handle_http_404(struct lws* wsi, const char* uri) {
         "</body>\n"
         "</html>\n";
 
+    // Add headers
+    if (lws_add_http_common_headers(wsi, HTTP_STATUS_NOT_FOUND,
+                                   "text/html",
+                                   strlen(html), &p, end)) {
+        return -1;
+    }
+
+    if (lws_finalize_write_http_header(wsi, buffer + LWS_PRE, &p, end)) {
+        return -1;
+    }
+
     // Write response body
     lws_write(wsi, (unsigned char*)html, strlen(html), LWS_WRITE_HTTP);
 
     // Complete HTTP transaction
-    lws_http_transaction_completed(wsi);
-    return 0;
+    return lws_http_transaction_completed(wsi) ? -1 : 0;
 }
 
 /**
-- 
2.43.0


From 29ccdd0cf07f2671ada81c04752881ce4b4f6d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:57 +0000
Subject: [PATCH 083/120] fix: end CORS preflight responses

---
 src/transport/mcp_http_server_callbacks.c | 3 +--
 src/transport/mcp_sthttp_threads.c        | 4 ++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 4e254b8..5de938e 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -940,8 +940,7 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
         }
 
         // Complete HTTP transaction (no body for OPTIONS)
-        lws_http_transaction_completed(wsi);
-        return 0;
+        return lws_http_transaction_completed(wsi) ? -1 : 0;
     }
     // Handle POST request
     else if (method[0] != '\0' && strcmp(method, "POST") == 0) {
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index b1126f9..c660134 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -492,6 +492,10 @@ int handle_options_request(struct lws* wsi, sthttp_transport_data_t* data) {
         return -1;
     }
 
+    if (lws_add_http_header_content_length(wsi, 0, &p, end)) {
+        return -1;
+    }
+
     // Add CORS headers if enabled (using optimized approach)
     if (add_optimized_cors_headers(wsi, data, &p, end) != 0) {
         return -1;
-- 
2.43.0


From 41e52a0ad67e8f96960c2ab20db0e2f323d14c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 084/120] fix: keep TCP client messages whole and reconnect
 after every loss

Concurrent senders wrote to the socket without a lock, so a partial write let two frames interleave.
The flag that says a reconnection is running was never cleared, so only the first connection loss was repaired.
The receiver thread of the lost connection was not joined and could read from the new socket.
Stopping the transport waited for the whole reconnect delay.
---
 .../internal/tcp_client_transport_internal.h  |   4 +-
 src/transport/mcp_tcp_client_receiver.c       |  64 ++++-----
 src/transport/mcp_tcp_client_reconnect.c      | 126 ++++++++++++++++--
 src/transport/mcp_tcp_client_transport.c      | 100 +++++++++++---
 4 files changed, 222 insertions(+), 72 deletions(-)

diff --git a/src/transport/internal/tcp_client_transport_internal.h b/src/transport/internal/tcp_client_transport_internal.h
index 22be15e..855a08e 100644
--- a/src/transport/internal/tcp_client_transport_internal.h
+++ b/src/transport/internal/tcp_client_transport_internal.h
@@ -28,6 +28,7 @@ typedef struct mcp_transport mcp_transport_t;
 void* tcp_client_reconnect_thread_func(void* arg);
 int start_reconnection_process(mcp_transport_t* transport);
 void stop_reconnection_process(mcp_transport_t* transport);
+void tcp_client_shutdown_socket(socket_t sock);
 
 // Internal structure for TCP client transport data
 typedef struct {
@@ -36,9 +37,10 @@ typedef struct {
     uint16_t port;
     socket_t sock;
     volatile bool running;
-    bool connected;
+    volatile bool connected;
     mcp_transport_t* transport_handle; // Pointer back to the main handle (contains callbacks)
     mcp_thread_t receive_thread;
+    mcp_mutex_t* send_mutex; // Serialises senders so that frames are not interleaved
     mcp_buffer_pool_t* buffer_pool; // Buffer pool for message buffers
 
     // Reconnection support
diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index c0f84a6..5532cd2 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -21,13 +21,11 @@
 #else
 #include <unistd.h>
 #include <netinet/in.h>
-#include <sys/select.h>
 #endif
 
 // Constants
 #define RECEIVER_ARENA_SIZE (1024 * 1024)  // 1MB arena for thread-local memory
-#define SELECT_TIMEOUT_SEC 1               // 1 second timeout for select()
-#define SELECT_TIMEOUT_USEC 0              // 0 microseconds
+#define WAIT_TIMEOUT_MS 1000               // 1 second timeout for waiting for data
 
 // External global flag variable (defined in mcp_tcp_client_reconnect.c)
 extern bool reconnection_in_progress;
@@ -94,7 +92,9 @@ static int send_ping_message(mcp_tcp_client_transport_data_t* data) {
 
     // Send using the socket utility function
     mcp_log_debug("Sending ping message (length: %u bytes)", content_length);
+    mcp_mutex_lock(data->send_mutex);
     int send_status = mcp_socket_send_vectors(data->sock, iov, 2, NULL);
+    mcp_mutex_unlock(data->send_mutex);
 
     if (send_status != 0) {
         int error_code = mcp_socket_get_lasterror();
@@ -166,12 +166,17 @@ void* tcp_client_receive_thread_func(void* arg) {
         mcp_log_debug("Sending initial ping message to verify connection");
         if (send_ping_message(data) != 0) {
             mcp_log_error("Failed to send initial ping message, exiting receiver thread");
+            data->connected = false;
+            tcp_client_shutdown_socket(data->sock);
+            if (transport->error_callback && data->running) {
+                transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
+            }
             mcp_arena_destroy_current_thread();
             return NULL;
         }
     }
 
-    // We use non-blocking socket operations with select() instead of a timeout
+    // We wait for data with a timeout before every message
     // This allows us to periodically check if we should exit without disconnecting
 
     // Main message reception loop
@@ -182,42 +187,20 @@ void* tcp_client_receive_thread_func(void* arg) {
             break;
         }
 
-        // --- 1. Use select() to wait for data with a timeout ---
-        fd_set read_fds;
-        struct timeval tv;
-
-        // Initialize the file descriptor set
-        FD_ZERO(&read_fds);
-        FD_SET(data->sock, &read_fds);
+        // --- 1. Wait for data with a timeout ---
+        int wait_result = mcp_socket_wait_readable(data->sock, WAIT_TIMEOUT_MS, NULL);
 
-        // Set the timeout using constants
-        tv.tv_sec = SELECT_TIMEOUT_SEC;
-        tv.tv_usec = SELECT_TIMEOUT_USEC;
-
-        // Wait for data or timeout
-        // The first parameter is the highest file descriptor value plus one
-        int select_result = select((int)data->sock + 1, &read_fds, NULL, NULL, &tv);
-
-        // Check if we should exit (running flag may have changed during select)
+        // Check if we should exit (running flag may have changed during the wait)
         if (!data->running) {
-            mcp_log_debug("Running flag cleared during select, exiting receive thread");
+            mcp_log_debug("Running flag cleared while waiting, exiting receive thread");
             break;
         }
 
-        // Check select result
-        if (select_result == -1) {
-            // Select error
-            int last_error = mcp_socket_get_lasterror();
-
-            // Check for interrupted system call (not a real error)
-            if (last_error == EINTR) {
-                mcp_log_debug("select() interrupted, continuing");
-                continue;
-            }
-
-            // Handle other select errors
-            mcp_log_error("select() failed with error: %d", last_error);
+        // Check wait result
+        if (wait_result == -1) {
+            mcp_log_error("Waiting for data failed with error: %d", mcp_socket_get_lasterror());
             data->connected = false;
+            tcp_client_shutdown_socket(data->sock);
 
             // Call error callback if set
             if (transport->error_callback && !error_signaled) {
@@ -226,7 +209,7 @@ void* tcp_client_receive_thread_func(void* arg) {
             }
 
             break;
-        } else if (select_result == 0) {
+        } else if (wait_result == 0) {
             // Timeout - no data available
             // Just continue the loop to check if we should exit
             continue;
@@ -249,6 +232,11 @@ void* tcp_client_receive_thread_func(void* arg) {
             // Get the error code
             int last_error = mcp_socket_get_lasterror();
 
+            // Mark as disconnected before reporting, so that no call is sent
+            // on this connection after the outstanding ones were failed
+            data->connected = false;
+            tcp_client_shutdown_socket(data->sock);
+
             // Check if we're still running (not stopped externally)
             if (data->running) {
                 // Log the error with details
@@ -266,9 +254,6 @@ void* tcp_client_receive_thread_func(void* arg) {
                              (int)data->sock);
             }
 
-            // Mark as disconnected
-            data->connected = false;
-
             // Free message buffer if allocated
             // (should be NULL if framing function failed before allocation)
             if (message_buf != NULL) {
@@ -332,9 +317,6 @@ void* tcp_client_receive_thread_func(void* arg) {
     // Loop has exited - thread is shutting down
     mcp_log_info("TCP client receive thread exiting for socket %d", (int)data->sock);
 
-    // Mark as disconnected
-    data->connected = false;
-
     // Final check if message buffer was properly released
     if (message_buf != NULL) {
         mcp_log_warn("Message buffer was not properly freed, cleaning up");
diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 8f970f8..52c404a 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -21,6 +21,9 @@
 #include <unistd.h>
 #endif
 
+// Longest wait between two looks at the flag that stops the reconnect thread
+#define RECONNECT_WAIT_SLICE_MS 100
+
 // Global flag to indicate reconnection is in progress
 // This is accessed by other files, so it must remain a non-static global
 bool reconnection_in_progress = false;
@@ -235,6 +238,57 @@ static uint32_t calculate_reconnect_delay(const mcp_reconnect_config_t* config,
     return delay_ms;
 }
 
+/**
+ * @brief Shuts a socket down in both directions without closing it.
+ *
+ * @param sock The socket
+ */
+void tcp_client_shutdown_socket(socket_t sock) {
+    if (sock == MCP_INVALID_SOCKET) {
+        return;
+    }
+#ifdef _WIN32
+    shutdown(sock, SD_BOTH);
+#else
+    shutdown(sock, SHUT_RDWR);
+#endif
+}
+
+/**
+ * @brief Ends the receiver thread of a lost connection.
+ *
+ * The thread uses the transport's socket, so it has to be gone before the
+ * socket is replaced. Must be called without the reconnection mutex.
+ *
+ * @param data The TCP client transport data
+ */
+static void retire_receive_thread(mcp_tcp_client_transport_data_t* data) {
+    mcp_mutex_lock(data->reconnect_mutex);
+    mcp_thread_t receiver = data->receive_thread;
+    data->receive_thread = 0;
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    if (!receiver) {
+        return;
+    }
+
+    tcp_client_shutdown_socket(data->sock);
+
+    // A callback that runs in the receiver thread may ask for a reconnection
+#ifdef _WIN32
+    if (GetThreadId((HANDLE)receiver) == GetCurrentThreadId()) {
+        CloseHandle((HANDLE)receiver);
+        return;
+    }
+#else
+    if (pthread_equal(receiver, pthread_self())) {
+        pthread_detach(receiver);
+        return;
+    }
+#endif
+    mcp_thread_join(receiver, NULL);
+}
+
 /**
  * @brief Attempts to reconnect to the server.
  *
@@ -262,23 +316,29 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
                 data->host, data->port, data->reconnect_attempt,
                 max_attempts > 0 ? mcp_string_format("%d", max_attempts) : "unlimited");
 
-    // Close existing socket if any
+    // Close existing socket if any, but not while a sender uses it
+    tcp_client_shutdown_socket(data->sock);
+    mcp_mutex_lock(data->send_mutex);
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Closing existing socket before reconnection attempt");
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
     }
+    mcp_mutex_unlock(data->send_mutex);
 
     // Attempt to connect with a timeout (5 seconds)
     const int CONNECT_TIMEOUT_MS = 5000;
-    data->sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
-    if (data->sock == MCP_INVALID_SOCKET) {
+    socket_t sock = mcp_socket_connect(data->host, data->port, CONNECT_TIMEOUT_MS);
+    if (sock == MCP_INVALID_SOCKET) {
         mcp_log_error("Reconnection attempt %d failed", data->reconnect_attempt);
         return -1;
     }
 
     // Connection successful
+    mcp_mutex_lock(data->send_mutex);
+    data->sock = sock;
     data->connected = true;
+    mcp_mutex_unlock(data->send_mutex);
     mcp_log_info("Reconnected successfully to %s:%u", data->host, data->port);
 
     // Set global reconnection in progress flag
@@ -289,9 +349,12 @@ static int attempt_reconnect(mcp_tcp_client_transport_data_t* data) {
         mcp_log_error("Failed to create receiver thread after reconnection");
 
         // Clean up on failure
+        mcp_mutex_lock(data->send_mutex);
         mcp_socket_close(data->sock);
         data->sock = MCP_INVALID_SOCKET;
         data->connected = false;
+        mcp_mutex_unlock(data->send_mutex);
+        data->receive_thread = 0;
         set_reconnection_in_progress(false);
 
         return -1;
@@ -344,9 +407,13 @@ void* tcp_client_reconnect_thread_func(void* arg) {
     mcp_cond_t* wait_cond = mcp_cond_create();
     if (!wait_cond) {
         mcp_log_error("Failed to create condition variable for reconnect thread");
+        data->reconnect_thread_running = false;
         return NULL;
     }
 
+    // The receiver of the lost connection still uses the old socket
+    retire_receive_thread(data);
+
     // Main reconnection loop
     while (data->reconnect_thread_running) {
         // Lock mutex to access shared reconnection state
@@ -383,9 +450,13 @@ void* tcp_client_reconnect_thread_func(void* arg) {
         // Log the wait time
         mcp_log_info("Waiting %u ms before reconnection attempt %d", delay_ms, data->reconnect_attempt);
 
-        // Wait using condition variable with timeout
-        // This allows the thread to be woken up early if needed (e.g., when stopping)
-        mcp_cond_timedwait(wait_cond, data->reconnect_mutex, delay_ms);
+        // Wait using condition variable with timeout, in slices so that a stop
+        // is noticed and does not have to wait for the whole delay
+        while (delay_ms > 0 && data->reconnect_thread_running) {
+            uint32_t slice_ms = delay_ms < RECONNECT_WAIT_SLICE_MS ? delay_ms : RECONNECT_WAIT_SLICE_MS;
+            mcp_cond_timedwait(wait_cond, data->reconnect_mutex, slice_ms);
+            delay_ms -= slice_ms;
+        }
 
         // Check if we were interrupted or if the thread should exit
         if (!data->reconnect_thread_running) {
@@ -441,6 +512,12 @@ void* tcp_client_reconnect_thread_func(void* arg) {
     }
 
     mcp_log_info("Reconnect thread exiting");
+
+    // Let the next connection loss start a reconnection again. Whoever does
+    // joins this thread first, so nothing may follow that needs the mutex.
+    mcp_mutex_lock(data->reconnect_mutex);
+    data->reconnect_thread_running = false;
+    mcp_mutex_unlock(data->reconnect_mutex);
     return NULL;
 }
 
@@ -479,6 +556,19 @@ int start_reconnection_process(mcp_transport_t* transport) {
         return 0;
     }
 
+    // Another sender may have seen the loss first and be done reconnecting
+    if (data->connected) {
+        mcp_log_debug("Already connected, not starting reconnection process");
+        mcp_mutex_unlock(data->reconnect_mutex);
+        return 0;
+    }
+
+    // The thread of the previous reconnection has finished
+    if (data->reconnect_thread) {
+        mcp_thread_join(data->reconnect_thread, NULL);
+        data->reconnect_thread = 0;
+    }
+
     mcp_log_info("Starting reconnection process");
 
     // Reset reconnection attempt counter
@@ -505,6 +595,7 @@ int start_reconnection_process(mcp_transport_t* transport) {
         mcp_log_error("Failed to create reconnection thread (error: %d)", thread_result);
 
         // Reset flags on failure
+        data->reconnect_thread = 0;
         data->reconnect_thread_running = false;
         set_reconnection_in_progress(false);
 
@@ -541,8 +632,8 @@ void stop_reconnection_process(mcp_transport_t* transport) {
     // Lock mutex to access shared reconnection state
     mcp_mutex_lock(data->reconnect_mutex);
 
-    // Check if reconnection thread is running
-    if (data->reconnect_thread_running) {
+    // Check if reconnection thread is running, or has finished but was not joined
+    if (data->reconnect_thread_running || data->reconnect_thread) {
         mcp_log_info("Stopping reconnection process");
 
         // Signal thread to stop
@@ -694,9 +785,27 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
     // Update connection state to reconnecting
     mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_RECONNECTING);
 
+    // Keep others from reconnecting too while the mutex is released
+    data->reconnect_thread_running = true;
+    mcp_thread_t finished = data->reconnect_thread;
+    data->reconnect_thread = 0;
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    // The receiver of the lost connection still uses the old socket
+    retire_receive_thread(data);
+
+    // The thread of the previous reconnection has finished
+    if (finished) {
+        mcp_thread_join(finished, NULL);
+    }
+
+    mcp_mutex_lock(data->reconnect_mutex);
+
     // Try immediate reconnection first
     mcp_log_info("Attempting immediate reconnection");
     int result = attempt_reconnect(data);
+    data->reconnect_thread_running = false;
+
     // If immediate reconnection failed, start reconnection process with backoff
     if (result != 0) {
         mcp_log_info("Immediate reconnection failed, starting reconnection process");
@@ -715,6 +824,7 @@ int mcp_tcp_client_reconnect(mcp_transport_t* transport) {
             mcp_log_error("Failed to create reconnection thread (error: %d)", thread_result);
 
             // Reset flag on failure
+            data->reconnect_thread = 0;
             data->reconnect_thread_running = false;
 
             // Update connection state to failed
diff --git a/src/transport/mcp_tcp_client_transport.c b/src/transport/mcp_tcp_client_transport.c
index d63d03f..1c0a334 100644
--- a/src/transport/mcp_tcp_client_transport.c
+++ b/src/transport/mcp_tcp_client_transport.c
@@ -128,6 +128,9 @@ static int tcp_client_transport_start(
     transport->callback_user_data = user_data;
     transport->error_callback = error_callback;
 
+    // A previous stop() turned reconnection off
+    data->reconnect_enabled = data->reconnect_config.enable_reconnect;
+
     // Initialize socket library
     if (mcp_socket_init() != 0) {
         mcp_log_error("Failed to initialize socket library");
@@ -139,10 +142,11 @@ static int tcp_client_transport_start(
         // If reconnection is enabled, start reconnection process
         if (data->reconnect_enabled) {
             mcp_log_info("Starting reconnection process after initial connection failure");
-            start_reconnection_process(transport);
 
-            // Mark as running even though not connected yet
+            // Mark as running even though not connected yet: the receiver thread
+            // of the connection made later checks this flag
             data->running = true;
+            start_reconnection_process(transport);
             return 0;
         }
 
@@ -196,25 +200,22 @@ static int tcp_client_transport_stop(mcp_transport_t* transport) {
 
     mcp_log_info("Stopping TCP client transport...");
 
-    // Stop reconnection process if active
-    stop_reconnection_process(transport);
-
     // Signal receiver thread to stop
     data->running = false;
 
     // Disable reconnection to prevent auto-reconnect during shutdown
+    mcp_mutex_lock(data->reconnect_mutex);
     data->reconnect_enabled = false;
+    mcp_mutex_unlock(data->reconnect_mutex);
+
+    // Stop reconnection process if active
+    stop_reconnection_process(transport);
 
     // Shutdown the socket to unblock the receiver thread
     if (data->sock != MCP_INVALID_SOCKET) {
         mcp_log_debug("Shutting down socket %d", (int)data->sock);
 
-        // Platform-specific socket shutdown
-#ifdef _WIN32
-        shutdown(data->sock, SD_BOTH);
-#else
-        shutdown(data->sock, SHUT_RDWR);
-#endif
+        tcp_client_shutdown_socket(data->sock);
         // Don't close socket here, let receiver thread or destroy handle it
     }
 
@@ -259,6 +260,12 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
         data->buffer_pool = NULL;
     }
 
+    // Destroy send mutex
+    if (data->send_mutex) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
+
     // Destroy reconnection mutex
     if (data->reconnect_mutex) {
         mcp_mutex_destroy(data->reconnect_mutex);
@@ -269,9 +276,9 @@ static void free_transport_resources(mcp_tcp_client_transport_data_t* data) {
 /**
  * @brief Common helper function to handle send errors and trigger reconnection if needed.
  *
- * This function logs the error, marks the connection as disconnected,
- * calls the error callback if set, and starts the reconnection process
- * if enabled.
+ * This function logs the error, calls the error callback if set, and starts
+ * the reconnection process if enabled. The connection was already marked as
+ * disconnected by the sender, while it held the send mutex.
  *
  * @param transport The transport handle
  * @param error_msg Error message to log
@@ -288,11 +295,10 @@ static int handle_send_error(mcp_transport_t* transport, const char* error_msg)
     // Log the error with the socket error code
     mcp_log_error("%s (error code: %d)", error_msg, error_code);
 
-    // Mark as disconnected on send error
-    data->connected = false;
-
     // Update connection state
-    mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+    if (!data->connected) {
+        mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+    }
 
     // Call error callback if set
     if (transport->error_callback) {
@@ -340,7 +346,7 @@ static int check_transport_ready(mcp_transport_t* transport, const char* operati
         mcp_log_error("Transport not connected for %s operation", operation_name);
 
         // If reconnection is enabled and we're not already reconnecting, start reconnection
-        if (data->reconnect_enabled && data->connection_state != MCP_CONNECTION_STATE_RECONNECTING) {
+        if (data->reconnect_enabled && !data->reconnect_thread_running) {
             mcp_log_info("Starting reconnection process before %s operation", operation_name);
             start_reconnection_process(transport);
         }
@@ -358,7 +364,7 @@ static int check_transport_ready(mcp_transport_t* transport, const char* operati
             mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
 
             // Start reconnection if enabled
-            if (data->reconnect_enabled && data->connection_state != MCP_CONNECTION_STATE_RECONNECTING) {
+            if (data->reconnect_enabled && !data->reconnect_thread_running) {
                 mcp_log_info("Starting reconnection process due to invalid socket");
                 start_reconnection_process(transport);
             }
@@ -371,6 +377,26 @@ static int check_transport_ready(mcp_transport_t* transport, const char* operati
     return 0;
 }
 
+/**
+ * @brief Finishes a send while the send mutex is held.
+ *
+ * After a failed send part of a frame may be on the wire, so nothing else may
+ * be sent on this connection: it is marked as disconnected and shut down,
+ * which also wakes the receiver thread.
+ *
+ * @param data Pointer to the TCP client transport data
+ * @param result Result of the socket operation
+ * @return The result
+ */
+static int finish_send(mcp_tcp_client_transport_data_t* data, int result) {
+    if (result != 0) {
+        data->connected = false;
+        tcp_client_shutdown_socket(data->sock);
+    }
+    mcp_mutex_unlock(data->send_mutex);
+    return result;
+}
+
 /**
  * @brief Implementation for the standard send function.
  *
@@ -408,8 +434,16 @@ static int tcp_client_transport_send(mcp_transport_t* transport, const void* dat
     // Log send operation at debug level
     mcp_log_debug("Sending %zu bytes to %s:%u", size, data->host, data->port);
 
+    // One message at a time: a send may take several system calls
+    mcp_mutex_lock(data->send_mutex);
+    if (!data->connected) {
+        mcp_mutex_unlock(data->send_mutex);
+        mcp_log_error("Connection lost before send operation");
+        return -1;
+    }
+
     // Use the unified exact send helper
-    int result = mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL);
+    int result = finish_send(data, mcp_socket_send_exact(data->sock, (const char*)data_buf, size, NULL));
     if (result != 0) {
         return handle_send_error(transport, "Failed to send data");
     }
@@ -486,8 +520,17 @@ static int tcp_client_transport_sendv(mcp_transport_t* transport, const mcp_buff
     mcp_log_debug("Sending %zu bytes in %zu buffers to %s:%u",
                  total_bytes, buffer_count, data->host, data->port);
 
+    // One message at a time: a send may take several system calls
+    mcp_mutex_lock(data->send_mutex);
+    if (!data->connected) {
+        mcp_mutex_unlock(data->send_mutex);
+        mcp_log_error("Connection lost before sendv operation");
+        free(iov);
+        return -1;
+    }
+
     // Use the unified vectored send function
-    int result = mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL);
+    int result = finish_send(data, mcp_socket_send_vectors(data->sock, iov, (int)buffer_count, NULL));
 
     // Free the iovec array
     free(iov);
@@ -722,10 +765,23 @@ static int init_tcp_client_data(
         return -1;
     }
 
+    // Initialize mutex that keeps the messages of concurrent senders apart
+    data->send_mutex = mcp_mutex_create();
+    if (data->send_mutex == NULL) {
+        mcp_log_error("Failed to create send mutex");
+        mcp_mutex_destroy(data->reconnect_mutex);
+        data->reconnect_mutex = NULL;
+        free(data->host);
+        data->host = NULL;
+        return -1;
+    }
+
     // Create buffer pool for efficient memory management
     data->buffer_pool = mcp_buffer_pool_create(POOL_BUFFER_SIZE, POOL_NUM_BUFFERS);
     if (data->buffer_pool == NULL) {
         mcp_log_error("Failed to create buffer pool");
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
         mcp_mutex_destroy(data->reconnect_mutex);
         data->reconnect_mutex = NULL;
         free(data->host);
-- 
2.43.0


From 28e626a53356ee3aa0ec74ea977bb4eb557a85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 085/120] fix: free gateway configuration and clamp its
 timeouts

---
 src/gateway/mcp_gateway_config.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index b4ad812..b05ae27 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -276,7 +276,7 @@ mcp_error_code_t load_gateway_config(
 
     if (mcp_json_get_type(root_json) != MCP_JSON_ARRAY) {
         mcp_log_error("Gateway config: Root element must be an array: %s", config_path);
-        // mcp_json_destroy(root_json); // Assuming arena cleanup handles this
+        mcp_json_destroy(root_json);
         return MCP_ERROR_PARSE_ERROR;
     }
 
@@ -284,7 +284,7 @@ mcp_error_code_t load_gateway_config(
     size_t num_backends_in_json = mcp_json_array_get_size(root_json);
     if (num_backends_in_json == 0) {
         mcp_log_info("Gateway config file contains an empty array. No backends loaded.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_NONE; // Valid empty config
     }
 
@@ -293,7 +293,7 @@ mcp_error_code_t load_gateway_config(
     temp_list = (mcp_backend_info_t*)malloc(backend_capacity * sizeof(mcp_backend_info_t));
     if (!temp_list) {
         mcp_log_error("Gateway config: Failed to allocate temporary backend list.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_INTERNAL_ERROR;
     }
     memset(temp_list, 0, backend_capacity * sizeof(mcp_backend_info_t)); // Zero initialize
@@ -378,7 +378,11 @@ mcp_error_code_t load_gateway_config(
         mcp_json_t* timeout_node = mcp_json_object_get_property(backend_obj, "timeout_ms");
         double timeout_val = 0;
         if (timeout_node && mcp_json_get_type(timeout_node) == MCP_JSON_NUMBER && mcp_json_get_number(timeout_node, &timeout_val) == 0) {
-            current_backend->timeout_ms = (timeout_val > 0) ? (uint32_t)timeout_val : 0;
+            if (timeout_val >= (double)UINT32_MAX) {
+                current_backend->timeout_ms = UINT32_MAX;
+            } else {
+                current_backend->timeout_ms = (timeout_val > 0) ? (uint32_t)timeout_val : 0;
+            }
         } else {
             current_backend->timeout_ms = 0; // Default
         }
@@ -393,12 +397,13 @@ mcp_error_code_t load_gateway_config(
     // 4. Success - Assign results
     *out_backend_list = temp_list;
     *out_backend_count = backend_count;
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return MCP_ERROR_NONE;
 
 cleanup_error:
     // Free partially populated temp list
-    mcp_free_backend_list(temp_list, backend_count); // Frees structs up to backend_count
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    // (the one being parsed is not counted yet; unused ones are zeroed)
+    mcp_free_backend_list(temp_list, backend_capacity);
+    mcp_json_destroy(root_json);
     return err;
 }
-- 
2.43.0


From 1dbfe40e9de859d3f1c1904c5a3929ae855202f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 086/120] fix: parse the parameters of requests the gateway
 routes

---
 src/gateway/mcp_gateway_routing.c | 50 ++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 29fe832..1eadbe4 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -11,24 +11,15 @@
 #include <regex.h>
 #endif
 
-// Implementation of find_backend_for_request
-const mcp_backend_info_t* find_backend_for_request(
+// Finds the backend for a request whose params were parsed already
+static const mcp_backend_info_t* find_backend_for_params(
     const mcp_request_t* request,
+    const mcp_json_t* params_obj,
     const mcp_backend_info_t* backends,
     size_t backend_count)
 {
-    if (!request || !request->method || !backends || backend_count == 0) {
-        return NULL;
-    }
-
     // --- Handle 'read_resource' routing ---
     if (strcmp(request->method, "read_resource") == 0) {
-        if (!request->params) return NULL; // Invalid request
-
-        // Params should be a parsed JSON object from handle_request
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL; // Should not happen if parsing worked
-
         mcp_json_t* uri_node = mcp_json_object_get_property(params_obj, "uri");
         const char* uri_str = NULL;
         if (!uri_node || mcp_json_get_type(uri_node) != MCP_JSON_STRING || mcp_json_get_string(uri_node, &uri_str) != 0 || !uri_str) {
@@ -67,12 +58,6 @@ const mcp_backend_info_t* find_backend_for_request(
 
     // --- Handle 'call_tool' routing ---
     if (strcmp(request->method, "call_tool") == 0) {
-        if (!request->params) return NULL; // Invalid request
-
-        // Params should be a parsed JSON object
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL;
-
         mcp_json_t* name_node = mcp_json_object_get_property(params_obj, "name");
         const char* name_str = NULL;
         if (!name_node || mcp_json_get_type(name_node) != MCP_JSON_STRING || mcp_json_get_string(name_node, &name_str) != 0 || !name_str) {
@@ -100,6 +85,35 @@ const mcp_backend_info_t* find_backend_for_request(
     return NULL;
 }
 
+const mcp_backend_info_t* find_backend_for_request(
+    const mcp_request_t* request,
+    const mcp_backend_info_t* backends,
+    size_t backend_count)
+{
+    if (!request || !request->method || !backends || backend_count == 0) {
+        return NULL;
+    }
+
+    // Only these methods have routing rules
+    if (strcmp(request->method, "read_resource") != 0 && strcmp(request->method, "call_tool") != 0) {
+        mcp_log_debug("No routing rules defined for method '%s'", request->method);
+        return NULL;
+    }
+
+    if (!request->params) return NULL; // Invalid request
+
+    // The params of a request are JSON text
+    mcp_json_t* params_obj = mcp_json_parse((const char*)request->params);
+    if (!params_obj) return NULL; // Invalid params
+
+    const mcp_backend_info_t* backend = NULL;
+    if (mcp_json_get_type(params_obj) == MCP_JSON_OBJECT) {
+        backend = find_backend_for_params(request, params_obj, backends, backend_count);
+    }
+    mcp_json_destroy(params_obj);
+    return backend;
+}
+
 /**
  * @internal
  * @brief Forwards a request to a specified backend server using the gateway pool manager.
-- 
2.43.0


From 3098fac890468aa8e2622ea69529f062fdb15899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 087/120] fix: answer forwarded requests under the caller's id

---
 src/gateway/mcp_gateway_routing.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 1eadbe4..6b1d9e6 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -160,12 +160,13 @@ char* gateway_forward_request(
     // Prepare parameters string (use empty object if NULL)
     const char* params_str = (request->params != NULL) ? (const char*)request->params : "{}";
 
-    // Send the request to the backend
-    int send_status = mcp_client_send_raw_request(
+    // Send the request to the backend. It goes out under an id of the backend
+    // connection's own: the caller's may be in use by others, and a late answer
+    // to an earlier request must not be taken for the answer to this one.
+    int send_status = mcp_client_send_request(
         client_handle,
         request->method,
         params_str,
-        request->id,
         &backend_response_json,
         &backend_error_code,
         &backend_error_message
@@ -176,7 +177,7 @@ char* gateway_forward_request(
     client_handle = NULL; // Avoid using after release
 
     // Process the result based on status
-    if (send_status == 0) {
+    if (send_status == 0 || backend_error_code != MCP_ERROR_NONE) {
         if (backend_error_code != MCP_ERROR_NONE) {
             // Backend returned an error
             mcp_log_warn("Backend '%s' returned error for request ID %llu: %d (%s)",
@@ -188,7 +189,7 @@ char* gateway_forward_request(
             char* error_response = mcp_json_create_error_response(
                 request->id,
                 backend_error_code,
-                backend_error_message
+                backend_error_message ? backend_error_message : "Backend error"
             );
 
             // Clean up
@@ -201,9 +202,13 @@ char* gateway_forward_request(
             mcp_log_debug("Successfully received response from backend '%s' for request ID %llu.",
                           target_backend->name, (unsigned long long)request->id);
 
+            // The client returns the bare result: make it the answer to the caller's id
+            char* response = mcp_json_create_response(request->id, backend_response_json);
+
             // Clean up and return success
+            free(backend_response_json);
             free(backend_error_message);
-            return backend_response_json;
+            return response;
         }
     } else {
         // Communication failed
-- 
2.43.0


From b81a6e6d73c2ddff15ff9518e0e38f5324f17ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 088/120] fix: look up the backend for every request

---
 src/gateway/mcp_gateway_config_manager.c | 85 ++----------------------
 1 file changed, 4 insertions(+), 81 deletions(-)

diff --git a/src/gateway/mcp_gateway_config_manager.c b/src/gateway/mcp_gateway_config_manager.c
index 42d418c..e05c41d 100644
--- a/src/gateway/mcp_gateway_config_manager.c
+++ b/src/gateway/mcp_gateway_config_manager.c
@@ -8,19 +8,10 @@
 #include "mcp_gateway_routing.h"
 #include "mcp_log.h"
 #include "mcp_rwlock.h"
-#include "mcp_hashtable.h"
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
-/**
- * @brief Structure for method-to-backend cache entry
- */
-typedef struct {
-    char* method;                      /**< Method name (key) */
-    const mcp_backend_info_t* backend; /**< Pointer to backend (not owned) */
-} method_backend_cache_entry_t;
-
 /**
  * @brief Internal structure for the gateway configuration manager
  */
@@ -29,25 +20,8 @@ struct gateway_config_manager {
     mcp_rwlock_t* config_lock;         /**< Read-write lock for thread-safe access */
     mcp_backend_info_t* backend_list;  /**< Array of backend configurations */
     size_t backend_count;              /**< Number of backends in the list */
-    mcp_hashtable_t* method_cache;     /**< Cache for method-to-backend mapping */
 };
 
-// We use the standard string hash and compare functions from mcp_hashtable.h
-
-/**
- * @brief Free function for cache entries
- *
- * This function matches the mcp_value_free_func_t signature
- */
-static void cache_entry_free(void* entry) {
-    if (entry) {
-        method_backend_cache_entry_t* cache_entry = (method_backend_cache_entry_t*)entry;
-        // Note: Don't free method string as it's owned by the hashtable key management
-        // Note: Don't free backend as it's owned by the config
-        free(cache_entry);
-    }
-}
-
 /**
  * @brief Creates a new gateway configuration manager
  */
@@ -68,18 +42,11 @@ gateway_config_manager_t* gateway_config_manager_create(const char* config_path)
     manager->config_lock = mcp_rwlock_create();
     manager->backend_list = NULL;
     manager->backend_count = 0;
-    manager->method_cache = mcp_hashtable_create(64, 0.75f,
-                                                 mcp_hashtable_string_hash,
-                                                 mcp_hashtable_string_compare,
-                                                 mcp_hashtable_string_dup,
-                                                 mcp_hashtable_string_free,
-                                                 cache_entry_free);
-
-    if (!manager->config_path || !manager->config_lock || !manager->method_cache) {
+
+    if (!manager->config_path || !manager->config_lock) {
         mcp_log_error("Failed to initialize gateway config manager");
         if (manager->config_path) free(manager->config_path);
         mcp_rwlock_free(manager->config_lock);
-        if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
         free(manager);
         return NULL;
     }
@@ -120,7 +87,6 @@ void gateway_config_manager_destroy(gateway_config_manager_t* manager) {
     // Free resources
     if (manager->config_path) free(manager->config_path);
     mcp_rwlock_free(manager->config_lock);
-    if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
     free(manager);
 
     mcp_log_info("Gateway configuration manager destroyed");
@@ -182,12 +148,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
     manager->backend_list = new_backend_list;
     manager->backend_count = new_backend_count;
 
-    // Clear the method cache since backend list has changed
-    if (manager->method_cache) {
-        mcp_hashtable_clear(manager->method_cache);
-        mcp_log_debug("Method-to-backend cache cleared due to configuration reload");
-    }
-
     // Release write lock
     mcp_rwlock_write_unlock(manager->config_lock);
 
@@ -198,7 +158,8 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
 /**
  * @brief Finds a backend for a given request
  *
- * Optimized implementation using method-to-backend cache for faster lookups
+ * The backend depends on the parameters as well as on the method, so it is
+ * looked up for every request.
  */
 const mcp_backend_info_t* gateway_config_manager_find_backend(
     gateway_config_manager_t* manager,
@@ -209,25 +170,7 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
     }
 
     const mcp_backend_info_t* backend = NULL;
-    method_backend_cache_entry_t* cache_entry = NULL;
-
-    // First check the cache (without locking)
-    if (manager->method_cache) {
-        void* entry_ptr = NULL;
-        if (mcp_hashtable_get(manager->method_cache, request->method, &entry_ptr) == 0 && entry_ptr) {
-            cache_entry = (method_backend_cache_entry_t*)entry_ptr;
-            backend = cache_entry->backend;
-
-            // If we found a valid backend in the cache, return it immediately
-            if (backend) {
-                mcp_log_debug("Cache hit for method '%s' -> backend '%s'",
-                             request->method, backend->name);
-                return backend;
-            }
-        }
-    }
 
-    // Cache miss, acquire read lock
     mcp_rwlock_read_lock(manager->config_lock);
 
     // Find backend using the routing logic
@@ -237,27 +180,7 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
         manager->backend_count
     );
 
-    // Release read lock before updating cache
     mcp_rwlock_read_unlock(manager->config_lock);
 
-    // Update the cache with the result (even if NULL, to cache negative results)
-    if (manager->method_cache && request->method) {
-        // Create a new cache entry
-        cache_entry = (method_backend_cache_entry_t*)malloc(sizeof(method_backend_cache_entry_t));
-        if (cache_entry) {
-            cache_entry->method = mcp_strdup(request->method);
-            cache_entry->backend = backend;
-
-            if (cache_entry->method) {
-                // Add to cache (will replace any existing entry)
-                mcp_hashtable_put(manager->method_cache, cache_entry->method, cache_entry);
-                mcp_log_debug("Added cache entry for method '%s'", request->method);
-            } else {
-                // Failed to duplicate method string
-                free(cache_entry);
-            }
-        }
-    }
-
     return backend;
 }
-- 
2.43.0


From be95848c1fed8c3e7bcb85fa6741ce567afa01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 089/120] fix: report a lost TCP connection in the connection
 state

---
 src/transport/mcp_tcp_client_receiver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index 5532cd2..6aef968 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -168,6 +168,7 @@ void* tcp_client_receive_thread_func(void* arg) {
             mcp_log_error("Failed to send initial ping message, exiting receiver thread");
             data->connected = false;
             tcp_client_shutdown_socket(data->sock);
+            mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
             if (transport->error_callback && data->running) {
                 transport->error_callback(transport->callback_user_data, MCP_ERROR_TRANSPORT_ERROR);
             }
@@ -201,6 +202,7 @@ void* tcp_client_receive_thread_func(void* arg) {
             mcp_log_error("Waiting for data failed with error: %d", mcp_socket_get_lasterror());
             data->connected = false;
             tcp_client_shutdown_socket(data->sock);
+            mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
 
             // Call error callback if set
             if (transport->error_callback && !error_signaled) {
@@ -239,6 +241,8 @@ void* tcp_client_receive_thread_func(void* arg) {
 
             // Check if we're still running (not stopped externally)
             if (data->running) {
+                mcp_tcp_client_update_connection_state(data, MCP_CONNECTION_STATE_DISCONNECTED);
+
                 // Log the error with details
                 mcp_log_error("Failed to receive message on socket %d (result: %d, error: %d)",
                              (int)data->sock, frame_result, last_error);
-- 
2.43.0


From 899eb77ded8e24b29ca75620ef8dc886c62e255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:00 +0000
Subject: [PATCH 090/120] fix: keep only live connections in the gateway pool

Connections are tracked with their transport so that lost ones are noticed without a request, and capacity that becomes free is signalled.
---
 src/gateway/mcp_gateway_pool.c | 432 ++++++++++++++-------------------
 1 file changed, 187 insertions(+), 245 deletions(-)

diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index b0d0ca0..a0c1c66 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -11,6 +11,7 @@
 #include <string.h>
 #include <time.h>
 #include <errno.h>
+#include <limits.h>
 
 // Default pool settings (can be made configurable later)
 #define DEFAULT_MIN_CONNECTIONS 1
@@ -19,9 +20,10 @@
 #define DEFAULT_IDLE_TIMEOUT_MS 60000 // 60 seconds
 #define DEFAULT_GET_TIMEOUT_MS -1 // Default: wait indefinitely for get_connection
 
-// Structure to represent an idle connection node in the list
+// Structure to represent a connection node in one of the lists
 typedef struct idle_connection_node {
     mcp_client_t* client;
+    mcp_transport_t* transport; // The client's transport (owned by the client)
     time_t idle_since; // Timestamp when it became idle
     struct idle_connection_node* next;
 } idle_connection_node_t;
@@ -39,6 +41,7 @@ typedef struct {
     mcp_cond_t* pool_cond;          // Condition variable for waiting getters
 
     idle_connection_node_t* idle_list; // Linked list of idle client connections
+    idle_connection_node_t* active_list; // Linked list of client connections in use
     size_t idle_count;              // Number of idle connections
     size_t active_count;            // Number of connections currently in use
     size_t total_count;             // Total connections created for this backend
@@ -83,6 +86,14 @@ static void backend_pool_free_func(void* value) {
             current = next;
         }
 
+        // Connections still in use belong to their users
+        current = pool->active_list;
+        while (current) {
+            idle_connection_node_t* next = current->next;
+            free(current);
+            current = next;
+        }
+
         // Free the address string and the pool struct itself
         free(pool->backend_address);
         free(pool);
@@ -145,6 +156,118 @@ void gateway_pool_manager_destroy(gateway_pool_manager_t* manager) {
     mcp_log_info("Gateway connection pool manager destroyed.");
 }
 
+// Connections are not re-established behind the pool's back: a broken one is
+// replaced by a new one
+static const mcp_reconnect_config_t NO_RECONNECT = { .enable_reconnect = false };
+
+// Opens a new connection to a pool's backend. Must be called without the pool lock.
+static idle_connection_node_t* open_connection(backend_pool_t* pool) {
+    const char* address_to_parse = pool->backend_address;
+    char host_buffer[256] = {0};
+    uint16_t port_part = 0;
+
+    // Check for scheme and skip it
+    if (strncmp(address_to_parse, "tcp://", 6) == 0) {
+        address_to_parse += 6;
+    }
+
+    // Find the colon separator
+    const char* colon = strchr(address_to_parse, ':');
+    if (colon && colon > address_to_parse) {
+        size_t host_len = colon - address_to_parse;
+        if (host_len < sizeof(host_buffer) - 1) {
+            memcpy(host_buffer, address_to_parse, host_len);
+            host_buffer[host_len] = '\0';
+            port_part = (uint16_t)atoi(colon + 1);
+        } else {
+            mcp_log_error("Host name too long in address: %s", pool->backend_address);
+        }
+    } else {
+        mcp_log_error("Invalid address format (missing port): %s", pool->backend_address);
+    }
+
+    if (port_part == 0 || host_buffer[0] == '\0') {
+        mcp_log_error("Invalid host or port in address: %s", pool->backend_address);
+        return NULL;
+    }
+
+    idle_connection_node_t* node = (idle_connection_node_t*)calloc(1, sizeof(idle_connection_node_t));
+    if (!node) {
+        mcp_log_error("Failed to allocate connection node for %s", pool->backend_address);
+        return NULL;
+    }
+
+    node->transport = mcp_tcp_client_create_reconnect(host_buffer, port_part, &NO_RECONNECT);
+    if (!node->transport) {
+        mcp_log_error("Failed to create transport for %s", pool->backend_address);
+        free(node);
+        return NULL;
+    }
+
+    // The client owns the transport, also when its creation fails
+    mcp_client_config_t client_config = { .request_timeout_ms = pool->connect_timeout_ms };
+    node->client = mcp_client_create(&client_config, node->transport);
+    if (!node->client) {
+        mcp_log_error("Failed to create client for %s", pool->backend_address);
+        free(node);
+        return NULL;
+    }
+
+    return node;
+}
+
+// Closes a connection that is in none of the lists. Must be called without the pool lock.
+static void close_connection(idle_connection_node_t* node) {
+    mcp_client_destroy(node->client);
+    free(node);
+}
+
+// Whether the connection was not lost
+static bool is_connection_healthy(const idle_connection_node_t* node) {
+    return mcp_tcp_client_get_connection_state(node->transport) == MCP_CONNECTION_STATE_CONNECTED;
+}
+
+// Moves a connection to the active list. Must be called with the pool lock.
+static mcp_client_t* activate_connection(backend_pool_t* pool, idle_connection_node_t* node) {
+    node->next = pool->active_list;
+    pool->active_list = node;
+    pool->active_count++;
+    return node->client;
+}
+
+// Opens the connections a new pool starts with. Connecting may take long, so this
+// must be called without the manager lock and the pool lock.
+static void prepopulate_pool(backend_pool_t* pool) {
+    for (size_t i = 0; i < pool->min_connections; i++) {
+        mcp_mutex_lock(pool->pool_lock);
+        bool room = pool->total_count < pool->max_connections;
+        if (room) pool->total_count++;
+        mcp_mutex_unlock(pool->pool_lock);
+        if (!room) return;
+
+        idle_connection_node_t* node = open_connection(pool);
+
+        mcp_mutex_lock(pool->pool_lock);
+        if (node) {
+            node->idle_since = time(NULL);
+            node->next = pool->idle_list;
+            pool->idle_list = node;
+            pool->idle_count++;
+        } else {
+            pool->total_count--;
+        }
+        mcp_cond_signal(pool->pool_cond);
+        mcp_mutex_unlock(pool->pool_lock);
+
+        if (!node) {
+            mcp_log_error("Failed to pre-populate connection pool for %s", pool->backend_address);
+            return;
+        }
+        mcp_log_debug("Created pre-populated connection %zu/%zu for %s",
+                      i+1, pool->min_connections, pool->backend_address);
+    }
+}
+
 // Helper to create a new backend pool structure
 static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_info) {
     backend_pool_t* pool = (backend_pool_t*)calloc(1, sizeof(backend_pool_t)); // Use calloc
@@ -162,7 +285,10 @@ static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_inf
 
     // Set pool configuration (using defaults or values from backend_info if available)
     // Use backend_info->timeout_ms for connect timeout, define separate idle timeout
-    pool->connect_timeout_ms = (backend_info->timeout_ms > 0) ? (int)backend_info->timeout_ms : DEFAULT_CONNECT_TIMEOUT_MS;
+    pool->connect_timeout_ms = DEFAULT_CONNECT_TIMEOUT_MS;
+    if (backend_info->timeout_ms > 0) {
+        pool->connect_timeout_ms = backend_info->timeout_ms > INT_MAX ? INT_MAX : (int)backend_info->timeout_ms;
+    }
     pool->idle_timeout_ms = DEFAULT_IDLE_TIMEOUT_MS; // Use default for now
     pool->min_connections = DEFAULT_MIN_CONNECTIONS; // Use default for now
     pool->max_connections = DEFAULT_MAX_CONNECTIONS; // Use default for now
@@ -182,84 +308,12 @@ static backend_pool_t* create_backend_pool(const mcp_backend_info_t* backend_inf
     }
 
     pool->idle_list = NULL;
+    pool->active_list = NULL;
     pool->idle_count = 0;
     pool->active_count = 0;
     pool->total_count = 0;
 
     // Pre-populate the pool with min_connections
-    if (pool->min_connections > 0) {
-        mcp_log_info("Pre-populating connection pool for backend: %s with %zu connections",
-                     backend_info->name, pool->min_connections);
-
-        // Parse TCP address once for all connections
-        const char* address_to_parse = pool->backend_address;
-        char host_buffer[256] = {0};
-        uint16_t port_part = 0;
-        bool address_valid = false;
-
-        // Skip "tcp://" prefix if present
-        if (strncmp(address_to_parse, "tcp://", 6) == 0) {
-            address_to_parse += 6;
-        }
-
-        // Find the colon separator
-        const char* colon = strchr(address_to_parse, ':');
-        if (colon && colon > address_to_parse) {
-            // Copy host part to buffer
-            size_t host_len = colon - address_to_parse;
-            if (host_len < sizeof(host_buffer) - 1) {
-                memcpy(host_buffer, address_to_parse, host_len);
-                host_buffer[host_len] = '\0';
-
-                // Parse port
-                port_part = (uint16_t)atoi(colon + 1);
-                if (port_part > 0 && host_buffer[0] != '\0') {
-                    address_valid = true;
-                }
-            }
-        }
-
-        if (!address_valid) {
-            mcp_log_error("Invalid address format for pre-population: %s", pool->backend_address);
-        } else {
-            // Create min_connections connections
-            for (size_t i = 0; i < pool->min_connections; i++) {
-                // Create transport
-                mcp_transport_t* transport = mcp_transport_tcp_client_create(host_buffer, port_part);
-                if (!transport) {
-                    mcp_log_error("Failed to create transport for pre-population: %s", pool->backend_address);
-                    continue;
-                }
-
-                // Create client
-                mcp_client_config_t client_config = { .request_timeout_ms = pool->connect_timeout_ms };
-                mcp_client_t* client = mcp_client_create(&client_config, transport);
-                if (!client) {
-                    mcp_log_error("Failed to create client for pre-population: %s", pool->backend_address);
-                    continue;
-                }
-
-                // Add to idle list
-                idle_connection_node_t* node = (idle_connection_node_t*)malloc(sizeof(idle_connection_node_t));
-                if (!node) {
-                    mcp_log_error("Failed to allocate node for pre-population: %s", pool->backend_address);
-                    mcp_client_destroy(client);
-                    continue;
-                }
-
-                node->client = client;
-                node->idle_since = time(NULL);
-                node->next = pool->idle_list;
-                pool->idle_list = node;
-                pool->idle_count++;
-                pool->total_count++;
-
-                mcp_log_debug("Created pre-populated connection %zu/%zu for %s",
-                             i+1, pool->min_connections, pool->backend_address);
-            }
-        }
-    }
-
     mcp_log_info("Created new connection pool for backend: %s (%s) [Min:%zu, Max:%zu, ConnectT:%dms, IdleT:%dms]",
                  backend_info->name, pool->backend_address,
                  pool->min_connections, pool->max_connections,
@@ -279,6 +333,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
     }
 
     backend_pool_t* pool = NULL;
+    bool pool_created = false;
     mcp_client_t* client_connection = NULL;
     idle_connection_node_t* idle_node = NULL;
     time_t now;
@@ -308,6 +363,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
             mcp_mutex_unlock(manager->manager_lock);
             return NULL;
         }
+        pool_created = true;
     }
     mcp_mutex_unlock(manager->manager_lock);
 
@@ -316,49 +372,39 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
         return NULL;
     }
 
+    if (pool_created) {
+        prepopulate_pool(pool);
+    }
+
     mcp_mutex_lock(pool->pool_lock);
 
     // --- Start Connection Retrieval Logic ---
     while (client_connection == NULL) {
         now = time(NULL); // Get current time for timeout checks
 
-        // 1. Check idle list & handle idle timeouts
-        idle_connection_node_t* prev_idle_node = NULL;
+        // 1. Check idle list & handle idle timeouts and lost connections
         idle_node = pool->idle_list;
-        while (idle_node) {
+        if (idle_node) {
             bool timed_out = (pool->idle_timeout_ms > 0) &&
                              (difftime(now, idle_node->idle_since) * 1000.0 > pool->idle_timeout_ms);
 
-            if (timed_out) {
-                mcp_log_info("Idle connection timed out for %s. Closing.", pool->backend_address);
-                if (prev_idle_node) {
-                    prev_idle_node->next = idle_node->next;
-                } else {
-                    pool->idle_list = idle_node->next;
-                }
-                pool->idle_count--;
+            pool->idle_list = idle_node->next;
+            pool->idle_count--;
+
+            if (timed_out || !is_connection_healthy(idle_node)) {
+                mcp_log_info("Idle connection timed out or lost for %s. Closing.", pool->backend_address);
                 pool->total_count--;
-                mcp_client_t* client_to_destroy = idle_node->client;
-                idle_connection_node_t* node_to_free = idle_node;
-                idle_node = idle_node->next;
+                mcp_cond_signal(pool->pool_cond);
                 mcp_mutex_unlock(pool->pool_lock); // Unlock before destroy
-                mcp_client_destroy(client_to_destroy);
-                free(node_to_free);
+                close_connection(idle_node);
                 mcp_mutex_lock(pool->pool_lock); // Relock
-            } else {
-                if (prev_idle_node) {
-                    prev_idle_node->next = idle_node->next;
-                } else {
-                    pool->idle_list = idle_node->next;
-                }
-                pool->idle_count--;
-                pool->active_count++;
-                client_connection = idle_node->client;
-                free(idle_node);
-                mcp_log_debug("Reusing idle connection for %s", pool->backend_address);
-                goto found_connection;
+                continue; // The list may have changed meanwhile
             }
-        } // End while(idle_node)
+
+            mcp_log_debug("Reusing idle connection for %s", pool->backend_address);
+            client_connection = activate_connection(pool, idle_node);
+            goto found_connection;
+        }
 
         // 2. Check if we can create a new connection
         if (pool->total_count < pool->max_connections) {
@@ -367,72 +413,17 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
             mcp_mutex_unlock(pool->pool_lock);
 
             mcp_log_debug("Creating new connection (%zu/%zu) for %s", current_total + 1, pool->max_connections, pool->backend_address);
+            idle_connection_node_t* new_node = open_connection(pool);
 
-            // Parse TCP address format (tcp://host:port or just host:port)
-            const char* address_to_parse = pool->backend_address;
-            char host_buffer[256] = {0};
-            uint16_t port_part = 0;
-
-            // Skip "tcp://" prefix if present
-            if (strncmp(address_to_parse, "tcp://", 6) == 0) {
-                address_to_parse += 6;
-            }
-
-            // Find the colon separator
-            const char* colon = strchr(address_to_parse, ':');
-            if (colon && colon > address_to_parse) {
-                // Copy host part to buffer (safer than strdup+modify)
-                size_t host_len = colon - address_to_parse;
-                if (host_len < sizeof(host_buffer) - 1) {
-                    memcpy(host_buffer, address_to_parse, host_len);
-                    host_buffer[host_len] = '\0';
-
-                    // Parse port
-                    port_part = (uint16_t)atoi(colon + 1);
-                } else {
-                    mcp_log_error("Host name too long in address: %s", pool->backend_address);
-                }
-            } else {
-                mcp_log_error("Invalid address format (missing port): %s", pool->backend_address);
-            }
-
-            // Create transport
-            mcp_transport_t* transport = NULL;
-            if (port_part > 0 && host_buffer[0] != '\0') {
-                transport = mcp_transport_tcp_client_create(host_buffer, port_part);
-            } else {
-                mcp_log_error("Invalid host or port in address: %s", pool->backend_address);
-            }
-
-            if (!transport) {
-                mcp_log_error("Failed to create transport for %s", pool->backend_address);
-                mcp_mutex_lock(pool->pool_lock);
-                pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
-                goto found_connection; // Exit loop, client_connection is NULL
-            }
-
-            mcp_client_config_t client_config = { .request_timeout_ms = pool->connect_timeout_ms };
-            mcp_client_t* new_client = mcp_client_create(&client_config, transport);
-
-            if (!new_client) {
-                mcp_log_error("Failed to create client for %s", pool->backend_address);
-                mcp_mutex_lock(pool->pool_lock);
+            mcp_mutex_lock(pool->pool_lock);
+            if (!new_node) {
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
+                mcp_cond_signal(pool->pool_cond);
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
-            mcp_mutex_lock(pool->pool_lock);
-            if (pool->pool_lock == NULL) {
-                mcp_mutex_unlock(pool->pool_lock);
-                mcp_log_warn("Pool destroyed while creating connection...");
-                mcp_client_destroy(new_client);
-                return NULL;
-            }
-            pool->active_count++;
-            client_connection = new_client;
             mcp_log_debug("Created and started new client connection for %s", pool->backend_address);
+            client_connection = activate_connection(pool, new_node);
             goto found_connection;
         }
 
@@ -457,7 +448,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
             wait_result = mcp_cond_timedwait(pool->pool_cond, pool->pool_lock, (uint32_t)remaining_timeout_ms);
         }
 
-        if (wait_result == ETIMEDOUT) {
+        if (wait_result == -2) {
             mcp_log_warn("Timed out waiting for connection to %s", pool->backend_address);
             goto found_connection; // Exit loop, client_connection is NULL
         } else if (wait_result != 0) {
@@ -473,34 +464,6 @@ found_connection:
     return client_connection; // Return the mcp_client_t* or NULL
 }
 
-// Helper function to check if a connection is healthy
-static bool is_connection_healthy(mcp_client_t* client) {
-    if (!client) return false;
-
-    // Simple health check - try to ping the server
-    // This is a lightweight operation that verifies the connection is still valid
-    char* response = NULL;
-    mcp_error_code_t error_code = MCP_ERROR_NONE;
-    char* error_message = NULL;
-
-    int result = mcp_client_send_raw_request(
-        client,
-        "ping",  // Use the standard ping method
-        "{}",    // Empty params
-        0,       // Use 0 as ID for health check
-        &response,
-        &error_code,
-        &error_message
-    );
-
-    // Clean up allocated memory
-    free(response);
-    free(error_message);
-
-    // Connection is healthy if request succeeded
-    return (result == 0 && error_code == MCP_ERROR_NONE);
-}
-
 // Implementation of gateway_pool_release_connection
 void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_backend_info_t* backend_info, void* connection_handle) {
     if (!manager || !backend_info || !backend_info->address || !connection_handle) {
@@ -526,65 +489,44 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
     // Lock the specific pool's mutex
     mcp_mutex_lock(pool->pool_lock);
 
-    // Check if we should perform health check
-    // Only check if we already have some idle connections or if we're near capacity
-    bool should_check_health = (pool->idle_count > 0 || pool->total_count >= pool->max_connections * 0.8);
-    bool is_healthy = true;
-
-    // Perform health check if needed
-    if (should_check_health) {
-        // Temporarily unlock pool to avoid blocking during health check
+    // Take the connection off the active list
+    idle_connection_node_t** link = &pool->active_list;
+    while (*link && (*link)->client != client) {
+        link = &(*link)->next;
+    }
+    idle_connection_node_t* node = *link;
+    if (!node) {
         mcp_mutex_unlock(pool->pool_lock);
-        is_healthy = is_connection_healthy(client);
-        mcp_mutex_lock(pool->pool_lock);
+        mcp_log_error("Released a connection that is not in use for backend: %s", pool->backend_address);
+        return;
     }
+    *link = node->next;
+    pool->active_count--;
 
-    // If connection is healthy, add it to the idle pool
-    if (is_healthy) {
-        // Check if we're already at max idle connections (keep at most max_connections/2 idle)
-        size_t max_idle = pool->max_connections / 2;
-        if (pool->idle_count >= max_idle) {
-            // Too many idle connections, destroy this one
-            if (pool->active_count > 0) pool->active_count--;
-            if (pool->total_count > 0) pool->total_count--;
-            mcp_mutex_unlock(pool->pool_lock);
-            mcp_client_destroy(client);
-            mcp_log_debug("Too many idle connections (%zu/%zu), destroyed connection for %s",
-                         pool->idle_count, max_idle, pool->backend_address);
-            return;
-        }
+    // Check if we're already at max idle connections (keep at most max_connections/2 idle)
+    size_t max_idle = pool->max_connections / 2;
+    bool is_healthy = is_connection_healthy(node);
+    bool keep = is_healthy && pool->idle_count < max_idle;
 
+    if (keep) {
         // Add connection back to idle list
-        idle_connection_node_t* node = (idle_connection_node_t*)malloc(sizeof(idle_connection_node_t));
-        if (node) {
-            node->client = client;
-            node->idle_since = time(NULL);
-            node->next = pool->idle_list;
-            pool->idle_list = node;
-            pool->idle_count++;
-            if (pool->active_count > 0) pool->active_count--; // Decrement active count
-            mcp_log_debug("Returned connection to idle pool for backend: %s", pool->backend_address);
-
-            // Signal a waiting getter
-            mcp_cond_signal(pool->pool_cond);
-        } else {
-            mcp_log_error("Failed to allocate node for idle connection for backend %s. Destroying connection.", pool->backend_address);
-            if (pool->active_count > 0) pool->active_count--;
-            // Decrement total_count as the connection is being destroyed
-            if (pool->total_count > 0) pool->total_count--;
-            mcp_mutex_unlock(pool->pool_lock);
-            mcp_client_destroy(client);
-            return;
-        }
+        node->idle_since = time(NULL);
+        node->next = pool->idle_list;
+        pool->idle_list = node;
+        pool->idle_count++;
+        mcp_log_debug("Returned connection to idle pool for backend: %s", pool->backend_address);
     } else {
-        // Connection is unhealthy, destroy it
-        mcp_log_warn("Connection to %s is unhealthy, destroying it", pool->backend_address);
-        if (pool->active_count > 0) pool->active_count--;
-        if (pool->total_count > 0) pool->total_count--;
-        mcp_mutex_unlock(pool->pool_lock);
-        mcp_client_destroy(client);
-        return;
+        pool->total_count--;
     }
 
+    // Signal a waiting getter: there is an idle connection or room for a new one
+    mcp_cond_signal(pool->pool_cond);
     mcp_mutex_unlock(pool->pool_lock);
+
+    if (!keep) {
+        if (!is_healthy) {
+            mcp_log_warn("Connection to %s is unhealthy, destroying it", pool->backend_address);
+        }
+        close_connection(node);
+    }
 }
-- 
2.43.0


From d560ad4f0f20efe5f1ff93db738b2fad152a869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:12 +0000
Subject: [PATCH 091/120] fix: deliver and replay server-sent events from the
 event thread

Events are queued per client and written by the event thread when the connection is writable.
---
 .../internal/http_transport_internal.h        |  10 +-
 src/transport/mcp_http_server_callbacks.c     |  47 ++-
 src/transport/mcp_http_server_handlers.c      | 130 +------
 src/transport/mcp_http_server_sse.c           | 356 ++++++++++++------
 src/transport/mcp_http_transport.c            |  13 +-
 5 files changed, 300 insertions(+), 256 deletions(-)

diff --git a/src/transport/internal/http_transport_internal.h b/src/transport/internal/http_transport_internal.h
index baae319..3a29fba 100644
--- a/src/transport/internal/http_transport_internal.h
+++ b/src/transport/internal/http_transport_internal.h
@@ -42,6 +42,7 @@ typedef struct {
 
     // SSE event storage for reconnection (circular buffer)
     sse_event_t stored_events[MAX_SSE_STORED_EVENTS];
+    char* stored_event_sessions[MAX_SSE_STORED_EVENTS]; // Session ID each event was sent to (NULL = broadcast)
     int event_head;          // Index of the oldest event
     int event_tail;          // Index where the next event will be stored
     int stored_event_count;  // Current number of stored events
@@ -76,6 +77,10 @@ typedef struct {
     int last_event_id;     // Last event ID received by this client
     char* event_filter;    // Event type filter (NULL = all events)
     char* session_id;      // Session ID for targeting specific clients (NULL = no session)
+    char* sse_output;      // Event stream text not yet written (after LWS_PRE bytes, guarded by sse_mutex)
+    size_t sse_output_start;
+    size_t sse_output_end;
+    size_t sse_output_size;
 } http_session_data_t;
 
 void* http_event_thread_func(void* arg);
@@ -86,7 +91,10 @@ int add_cors_headers(struct lws* wsi, http_transport_data_t* data,
 int lws_root_handler(struct lws* wsi, enum lws_callback_reasons reason,
                 void* user, void* in, size_t len);
 
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data);
+int store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id);
+bool start_sse_stream(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
+int write_sse_output(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
+void request_sse_writes(http_transport_data_t* data);
 void send_sse_heartbeat(http_transport_data_t* data);
 
 // LWS protocols
diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 5de938e..55f3cc5 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -216,6 +216,18 @@ static int lws_callback_http(struct lws* wsi, enum lws_callback_reasons reason,
             // Handle HTTP request body completion
             return handle_http_body_completion(wsi, data, session);
 
+        case LWS_CALLBACK_HTTP_WRITEABLE:
+            // Write queued events to SSE clients
+            if (session != NULL && session->is_sse_client) {
+                return write_sse_output(wsi, data, session);
+            }
+            return lws_callback_http_dummy(wsi, reason, user, in, len);
+
+        case LWS_CALLBACK_EVENT_WAIT_CANCELLED:
+            // Events were queued by another thread
+            request_sse_writes(data);
+            return 0;
+
         case LWS_CALLBACK_CLOSED_HTTP:
             // Handle HTTP connection closure
             return handle_closed_http(wsi, data, session);
@@ -332,6 +344,10 @@ static int handle_wsi_create(struct lws* wsi, http_session_data_t* session) {
         session->last_event_id = 0;
         session->event_filter = NULL;
         session->session_id = NULL;
+        session->sse_output = NULL;
+        session->sse_output_start = 0;
+        session->sse_output_end = 0;
+        session->sse_output_size = 0;
         mcp_log_debug("Session data initialized");
     }
     return 0;
@@ -1622,18 +1638,6 @@ static int handle_closed_http(struct lws* wsi, http_transport_data_t* data, http
         session->request_len = 0;
     }
 
-    // Free event filter if set
-    if (session->event_filter != NULL) {
-        free(session->event_filter);
-        session->event_filter = NULL;
-    }
-
-    // Free session ID if set
-    if (session->session_id != NULL) {
-        free(session->session_id);
-        session->session_id = NULL;
-    }
-
     // Remove from SSE clients if this was an SSE client
     if (session->is_sse_client) {
         mcp_log_info("SSE client disconnected");
@@ -1672,5 +1676,24 @@ static int handle_closed_http(struct lws* wsi, http_transport_data_t* data, http
         session->is_sse_client = false;
     }
 
+    // Free event filter if set
+    if (session->event_filter != NULL) {
+        free(session->event_filter);
+        session->event_filter = NULL;
+    }
+
+    // Free session ID if set
+    if (session->session_id != NULL) {
+        free(session->session_id);
+        session->session_id = NULL;
+    }
+
+    // Free queued event stream text
+    if (session->sse_output != NULL) {
+        free(session->sse_output);
+        session->sse_output = NULL;
+    }
+    session->sse_output_start = session->sse_output_end = session->sse_output_size = 0;
+
     return 0;
 }
\ No newline at end of file
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 03543d7..29e54e1 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -40,7 +40,6 @@
 // Forward declarations
 static char* url_decode(const char* src);
 static char* extract_query_param(const char* query, const char* param_name);
-static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session);
 
 /**
  * @brief Root path handler for HTTP server
@@ -349,96 +348,6 @@ static char* extract_query_param(const char* query, const char* param_name) {
     }
 }
 
-/**
- * @brief Replay stored SSE events to a client
- *
- * This function replays stored SSE events to a client that has reconnected with a Last-Event-ID.
- *
- * @param wsi WebSocket instance
- * @param data Transport data
- * @param session Session data
- */
-static void replay_stored_events(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session) {
-    if (wsi == NULL || data == NULL || session == NULL || session->last_event_id <= 0) {
-        return;
-    }
-
-    mcp_log_info("Replaying missed events for client with Last-Event-ID: %d", session->last_event_id);
-
-    // Lock the event mutex to safely access the stored events
-    mcp_mutex_lock(data->event_mutex);
-
-    // Check if there are any stored events
-    if (data->stored_event_count <= 0) {
-        mcp_log_debug("No stored events to replay");
-        mcp_mutex_unlock(data->event_mutex);
-        return;
-    }
-
-    // Iterate through the circular buffer to find events with ID greater than last_event_id
-    int current = data->event_head;
-    int count = 0;
-    int replayed_count = 0;
-
-    // Process all events in the buffer
-    while (count < data->stored_event_count) {
-        // Get the event ID
-        int event_id = 0;
-        if (data->stored_events[current].id != NULL) {
-            event_id = atoi(data->stored_events[current].id);
-        }
-
-        // Only send events with ID greater than last_event_id
-        if (event_id > session->last_event_id) {
-            // Check if the event matches the filter (if any)
-            bool should_send = true;
-
-            if (session->event_filter != NULL && data->stored_events[current].event != NULL) {
-                if (strcmp(session->event_filter, data->stored_events[current].event) != 0) {
-                    should_send = false;
-                }
-            }
-
-            // Send the event if it passes the filter
-            if (should_send) {
-                // Replay the event
-                if (data->stored_events[current].event != NULL) {
-                    // Write event type
-                    lws_write_http(wsi, SSE_FIELD_EVENT, strlen(SSE_FIELD_EVENT));
-                    lws_write_http(wsi, data->stored_events[current].event,
-                                  strlen(data->stored_events[current].event));
-                    lws_write_http(wsi, "\n", 1);
-                }
-
-                // Write event ID
-                lws_write_http(wsi, SSE_FIELD_ID, strlen(SSE_FIELD_ID));
-                lws_write_http(wsi, data->stored_events[current].id,
-                              strlen(data->stored_events[current].id));
-                lws_write_http(wsi, "\n", 1);
-
-                // Write event data
-                lws_write_http(wsi, SSE_FIELD_DATA, strlen(SSE_FIELD_DATA));
-                lws_write_http(wsi, data->stored_events[current].data,
-                              strlen(data->stored_events[current].data));
-                lws_write_http(wsi, "\n\n", 2);
-
-                // Request a callback when the socket is writable again
-                lws_callback_on_writable(wsi);
-
-                replayed_count++;
-            }
-        }
-
-        // Move to the next event in the circular buffer
-        current = (current + 1) % MAX_SSE_STORED_EVENTS;
-        count++;
-    }
-
-    mcp_mutex_unlock(data->event_mutex);
-
-    mcp_log_info("Replayed %d events to client", replayed_count);
-}
-
 /**
  * @brief Handle SSE (Server-Sent Events) request
  *
@@ -512,11 +421,6 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
         return;
     }
 
-    // Mark as SSE connection
-    lws_http_mark_sse(wsi);
-
-    // Mark as SSE client
-    session->is_sse_client = true;
     session->last_event_id = 0;
 
     // Get query string
@@ -579,35 +483,11 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
         mcp_log_debug("SSE request has no query string (len=%d)", query_len);
     }
 
-    // Add to SSE clients list
-    mcp_mutex_lock(data->sse_mutex);
-
-    if (data->sse_client_count < MAX_SSE_CLIENTS) {
-        data->sse_clients[data->sse_client_count++] = wsi;
-
-        // Log the client connection with session details
-        mcp_log_info("Added SSE client #%d - session_id: %s, filter: %s",
-                    data->sse_client_count,
-                    session->session_id ? session->session_id : "NULL",
-                    session->event_filter ? session->event_filter : "ALL");
-    } else {
-        mcp_log_error("Maximum number of SSE clients (%d) reached, rejecting connection", MAX_SSE_CLIENTS);
-        mcp_mutex_unlock(data->sse_mutex);
-        return;
-    }
-
-    mcp_mutex_unlock(data->sse_mutex);
-
-    // Send initial SSE message
-    const char* initial_msg = "data: connected\n\n";
-    int bytes_written = lws_write(wsi, (unsigned char*)initial_msg, strlen(initial_msg), LWS_WRITE_HTTP);
-    if (bytes_written < 0) {
-        mcp_log_error("Failed to write initial SSE message");
-        return;
-    }
+    // Mark as SSE connection (this gives up the request headers)
+    lws_http_mark_sse(wsi);
 
-    // If client reconnected with Last-Event-ID, replay missed events
-    if (session->last_event_id > 0) {
-        replay_stored_events(wsi, data, session);
+    // Add to SSE clients list and replay missed events
+    if (start_sse_stream(wsi, data, session)) {
+        session->is_sse_client = true;
     }
 }
diff --git a/src/transport/mcp_http_server_sse.c b/src/transport/mcp_http_server_sse.c
index 87af6cf..e0327eb 100644
--- a/src/transport/mcp_http_server_sse.c
+++ b/src/transport/mcp_http_server_sse.c
@@ -12,6 +12,9 @@
 // Buffer size constants
 #define SSE_ID_BUFFER_SIZE 32         /**< Maximum size for event ID strings */
 
+// Largest piece of an event stream written at once
+#define SSE_WRITE_SIZE 16384
+
 /**
  * @brief Free all memory associated with a stored SSE event
  *
@@ -44,7 +47,7 @@ static void free_stored_event(sse_event_t* event) {
  */
 static bool allocate_event_fields(int index, http_transport_data_t* data,
                                  const char* event_id, const char* event_type,
-                                 const char* event_data) {
+                                 const char* event_data, const char* session_id) {
     if (data == NULL || event_id == NULL || event_data == NULL ||
         index < 0 || index >= MAX_SSE_STORED_EVENTS) {
         mcp_log_error("Invalid parameters for allocate_event_fields");
@@ -55,6 +58,7 @@ static bool allocate_event_fields(int index, http_transport_data_t* data,
     data->stored_events[index].event = NULL;
     data->stored_events[index].data = NULL;
     data->stored_events[index].timestamp = 0;
+    data->stored_event_sessions[index] = NULL;
 
     data->stored_events[index].id = mcp_strdup(event_id);
     if (data->stored_events[index].id == NULL) {
@@ -78,6 +82,15 @@ static bool allocate_event_fields(int index, http_transport_data_t* data,
         goto cleanup_error;
     }
 
+    // Allocate and store the target session if provided
+    if (session_id != NULL) {
+        data->stored_event_sessions[index] = mcp_strdup(session_id);
+        if (data->stored_event_sessions[index] == NULL) {
+            mcp_log_error("Failed to allocate memory for event session ID");
+            goto cleanup_error;
+        }
+    }
+
     // Set the timestamp
     data->stored_events[index].timestamp = time(NULL);
     
@@ -98,21 +111,23 @@ cleanup_error:
  * @param data Transport data containing the event circular buffer
  * @param event Event type (can be NULL for default events)
  * @param event_data Event data payload (must not be NULL)
+ * @param session_id Session ID the event is sent to (NULL for broadcast)
+ * @return int ID of the event, or -1 on failure
  */
-void store_sse_event(http_transport_data_t* data, const char* event, const char* event_data) {
+int store_sse_event(http_transport_data_t* data, const char* event, const char* event_data, const char* session_id) {
     if (data == NULL || event_data == NULL) {
         mcp_log_error("Invalid parameters for store_sse_event");
-        return;
+        return -1;
     }
 
     if (!is_valid_sse_text(event_data)) {
         mcp_log_error("Invalid characters in SSE event data");
-        return;
+        return -1;
     }
 
-    if (!is_valid_sse_text(event)) {
+    if (event != NULL && !is_valid_sse_text(event)) {
         mcp_log_error("Invalid characters in SSE event type");
-        return;
+        return -1;
     }
 
     mcp_mutex_lock(data->event_mutex);
@@ -125,7 +140,7 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
     if (id_len < 0 || id_len >= (int)sizeof(id_str)) {
         mcp_log_error("Event ID buffer overflow: ID %d exceeds buffer size", event_id);
         mcp_mutex_unlock(data->event_mutex);
-        return;
+        return -1;
     }
 
     // Handle circular buffer management
@@ -136,27 +151,26 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
 
         // Free the oldest event's memory (at head position)
         free_stored_event(&data->stored_events[data->event_head]);
+        safe_free_string(&data->stored_event_sessions[data->event_head]);
 
         // Move head forward (oldest event position)
         data->event_head = (data->event_head + 1) % MAX_SSE_STORED_EVENTS;
 
-        // Count stays the same as we're replacing an event
-    } else {
-        // Buffer has space - increment count
-        data->stored_event_count++;
-        mcp_log_debug("Adding event to circular buffer, new count: %d/%d",
-                     data->stored_event_count, MAX_SSE_STORED_EVENTS);
+        data->stored_event_count--;
     }
 
     // Add the new event at the tail position
     int index = data->event_tail;
 
     // Allocate and store the event fields
-    if (!allocate_event_fields(index, data, id_str, event, event_data)) {
+    if (!allocate_event_fields(index, data, id_str, event, event_data, session_id)) {
         mcp_log_error("Failed to allocate event fields, event not stored");
         mcp_mutex_unlock(data->event_mutex);
-        return;
+        return -1;
     }
+    data->stored_event_count++;
+    mcp_log_debug("Added event to circular buffer, new count: %d/%d",
+                 data->stored_event_count, MAX_SSE_STORED_EVENTS);
 
     // Move tail forward (position for next event)
     data->event_tail = (data->event_tail + 1) % MAX_SSE_STORED_EVENTS;
@@ -165,6 +179,98 @@ void store_sse_event(http_transport_data_t* data, const char* event, const char*
                  id_str, event ? event : "(default)", strlen(event_data));
 
     mcp_mutex_unlock(data->event_mutex);
+    return event_id;
+}
+
+/**
+ * @brief Queue event stream text for a client
+ *
+ * The text is written by the event thread once the client's socket is writable.
+ * Must be called with the SSE mutex held.
+ *
+ * @param session Session data of the client
+ * @param text Text to queue
+ * @param len Length of the text
+ * @return bool true if the text was queued, false otherwise
+ */
+static bool queue_sse_text(http_session_data_t* session, const char* text, size_t len) {
+    if (session->sse_output_size - session->sse_output_end < len) {
+        size_t new_size = session->sse_output_end + len;
+        if (new_size < 2 * session->sse_output_size) {
+            new_size = 2 * session->sse_output_size;
+        }
+
+        char* new_output = (char*)realloc(session->sse_output, LWS_PRE + new_size);
+        if (new_output == NULL) {
+            mcp_log_error("Failed to allocate memory for SSE output");
+            return false;
+        }
+        session->sse_output = new_output;
+        session->sse_output_size = new_size;
+    }
+
+    memcpy(session->sse_output + LWS_PRE + session->sse_output_end, text, len);
+    session->sse_output_end += len;
+    return true;
+}
+
+/**
+ * @brief Write queued event stream text to a client whose socket is writable
+ *
+ * Must be called from the event thread.
+ *
+ * @param wsi WebSocket instance of the client
+ * @param data Transport data
+ * @param session Session data of the client
+ * @return int 0 on success, -1 on failure
+ */
+int write_sse_output(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session) {
+    int result = 0;
+
+    mcp_mutex_lock(data->sse_mutex);
+
+    size_t len = session->sse_output_end - session->sse_output_start;
+    if (len > 0) {
+        if (len > SSE_WRITE_SIZE) {
+            len = SSE_WRITE_SIZE;
+        }
+
+        if (lws_write_http(wsi, session->sse_output + LWS_PRE + session->sse_output_start, len) < 0) {
+            mcp_log_warn("Failed to write to SSE client");
+            result = -1;
+        }
+
+        session->sse_output_start += len;
+        if (session->sse_output_start < session->sse_output_end) {
+            lws_callback_on_writable(wsi);
+        } else {
+            safe_free_string(&session->sse_output);
+            session->sse_output_start = session->sse_output_end = session->sse_output_size = 0;
+        }
+    }
+
+    mcp_mutex_unlock(data->sse_mutex);
+    return result;
+}
+
+/**
+ * @brief Ask for writable callbacks for all clients with queued text
+ *
+ * Must be called from the event thread.
+ *
+ * @param data Transport data
+ */
+void request_sse_writes(http_transport_data_t* data) {
+    mcp_mutex_lock(data->sse_mutex);
+
+    for (int i = 0; i < data->sse_client_count; i++) {
+        http_session_data_t* session = (http_session_data_t*)lws_wsi_user(data->sse_clients[i]);
+        if (session != NULL && session->sse_output_end > 0) {
+            lws_callback_on_writable(data->sse_clients[i]);
+        }
+    }
+
+    mcp_mutex_unlock(data->sse_mutex);
 }
 
 /**
@@ -242,14 +348,13 @@ void send_sse_heartbeat(http_transport_data_t* data) {
 
         // Send a comment as a heartbeat (using SSE comment format)
         // This will not trigger an event in the client but keeps the connection alive
-        int result = lws_write_http(wsi, heartbeat_msg, msg_len);
-        if (result < 0) {
+        http_session_data_t* session = (http_session_data_t*)lws_wsi_user(wsi);
+        if (session == NULL || !queue_sse_text(session, heartbeat_msg, (size_t)msg_len)) {
             mcp_log_warn("Failed to send heartbeat to SSE client %d", i);
         } else {
             success_count++;
 
-            // Request a callback when the socket is writable again
-            // This ensures libwebsockets will flush the data properly
+            // The text is written when the socket is writable
             lws_callback_on_writable(wsi);
         }
     }
@@ -371,133 +476,141 @@ static bool session_matches_filter(http_session_data_t* session, const char* eve
 }
 
 /**
- * @brief Write an SSE field with proper error handling
+ * @brief Queue an SSE field
  *
- * @param wsi WebSocket instance
+ * @param session Session data of the client
  * @param field Field name (e.g., "event: ", "id: ")
- * @param value Field value (can be NULL)
- * @return bool true if all writes succeeded, false otherwise
+ * @param value Field value
+ * @param len Length of the value
+ * @return bool true if the field was queued, false otherwise
  */
-static bool write_sse_field(struct lws* wsi, const char* field, const char* value) {
-    if (!wsi || !field) {
-        return false;
-    }
-
-    if (!is_valid_sse_text(value)) {
-        mcp_log_error("Invalid characters in SSE field value");
-        return false;
-    }
-
-    if (lws_write_http(wsi, field, strlen(field)) < 0) {
-        return false;
-    }
-
-    if (value && lws_write_http(wsi, value, strlen(value)) < 0) {
-        return false;
-    }
-
-    return lws_write_http(wsi, "\n", 1) >= 0;
+static bool queue_sse_field(http_session_data_t* session, const char* field, const char* value, size_t len) {
+    return queue_sse_text(session, field, strlen(field)) &&
+           queue_sse_text(session, value, len) &&
+           queue_sse_text(session, "\n", 1);
 }
 
 /**
  * @brief Send an SSE event to a client
  *
- * This function sends a properly formatted Server-Sent Event (SSE) to a client.
- * It follows the SSE protocol format, writing the event in chunks to avoid any
- * heap allocations. The function handles both named events and default events.
+ * This function queues a properly formatted Server-Sent Event (SSE) for a client.
+ * It handles both named events and default events. Data of several lines becomes
+ * several data fields. Must be called with the SSE mutex held.
  *
  * SSE Format:
  * - Named event: "event: [event_type]\nid: [id]\ndata: [data]\n\n"
  * - Default event: "id: [id]\ndata: [data]\n\n"
  *
- * @param wsi WebSocket instance representing the client connection
+ * @param session Session data of the client
  * @param event Event type (can be NULL for default events)
  * @param data Event data payload
  * @param id_str Event ID string
- * @return bool true if the event was sent successfully, false otherwise
+ * @return bool true if the event was queued, false otherwise
  */
-static bool send_sse_event_to_client(struct lws* wsi, const char* event,
+static bool send_sse_event_to_client(http_session_data_t* session, const char* event,
                                      const char* data, const char* id_str) {
-    if (wsi == NULL || data == NULL || id_str == NULL) {
+    if (session == NULL || data == NULL || id_str == NULL) {
         mcp_log_error("Invalid parameters for send_sse_event_to_client");
         return false;
     }
 
-    // Validate event data and ID (these should already be validated, but double-check)
-    if (!is_valid_sse_text(data) || !is_valid_sse_text(id_str)) {
-        mcp_log_error("Invalid characters in SSE event data or ID");
-        return false;
+    size_t old_end = session->sse_output_end;
+
+    // Step 1: Write event field ("event: [event_type]\n") of a named event
+    bool result = event == NULL || queue_sse_field(session, SSE_FIELD_EVENT, event, strlen(event));
+
+    // Step 2: Write ID field ("id: [id]\n")
+    result = result && queue_sse_field(session, SSE_FIELD_ID, id_str, strlen(id_str));
+
+    // Step 3: Write a data field ("data: [data]\n") for each line
+    const char* line = data;
+    while (result) {
+        size_t len = 0;
+        while (line[len] != '\0' && line[len] != '\r' && line[len] != '\n') {
+            len++;
+        }
+        result = queue_sse_field(session, SSE_FIELD_DATA, line, len);
+        line += len;
+        if (*line == '\0') {
+            break;
+        }
+        line += (line[0] == '\r' && line[1] == '\n') ? 2 : 1;
     }
 
-    // Validate event type if provided
-    if (!is_valid_sse_text(event)) {
-        mcp_log_error("Invalid characters in SSE event type");
-        return false;
+    // End with an empty line to complete the event
+    result = result && queue_sse_text(session, "\n", 1);
+
+    if (!result) {
+        session->sse_output_end = old_end; // Leave no part of the event
     }
+    return result;
+}
 
-    int result = 0;
+/**
+ * @brief Register an SSE client and replay the events it missed
+ *
+ * Must be called from the event thread after the response headers were written.
+ *
+ * @param wsi WebSocket instance of the client
+ * @param data Transport data
+ * @param session Session data of the client
+ * @return bool true if the client was registered, false otherwise
+ */
+bool start_sse_stream(struct lws* wsi, http_transport_data_t* data, http_session_data_t* session) {
+    // No event is sent between the replay and the registration
+    mcp_mutex_lock(data->sse_mutex);
 
-    // Different format based on whether an event type is specified
-    if (event != NULL) {
-        // Named event format
-        // Write in multiple pieces to avoid any heap allocation
+    if (data->sse_client_count >= MAX_SSE_CLIENTS) {
+        mcp_log_error("Maximum number of SSE clients (%d) reached, rejecting connection", MAX_SSE_CLIENTS);
+        mcp_mutex_unlock(data->sse_mutex);
+        return false;
+    }
 
-        // Step 1: Write event field ("event: [event_type]\n")
-        result = write_sse_field(wsi, SSE_FIELD_EVENT, event);
-        if (!result) {
-            mcp_log_error("Failed to write event field");
-            return false;
-        }
+    // Send initial SSE message
+    const char* initial_msg = "data: connected\n\n";
+    if (!queue_sse_text(session, initial_msg, strlen(initial_msg))) {
+        mcp_mutex_unlock(data->sse_mutex);
+        return false;
+    }
 
-        // Step 2: Write ID field ("id: [id]\n")
-        result = write_sse_field(wsi, SSE_FIELD_ID, id_str);
-        if (!result) {
-            mcp_log_error("Failed to write id field");
-            return false;
-        }
+    // If client reconnected with Last-Event-ID, replay missed events
+    if (session->last_event_id > 0) {
+        mcp_log_info("Replaying missed events for client with Last-Event-ID: %d", session->last_event_id);
 
-        // Step 3: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
-        if (!result) {
-            mcp_log_error("Failed to write data field");
-            return false;
-        }
+        // Lock the event mutex to safely access the stored events
+        mcp_mutex_lock(data->event_mutex);
 
-        // End with double newline to complete the event
-        result = lws_write_http(wsi, "\n", 1);
-        if (result < 0) {
-            mcp_log_error("Failed to write final newlines");
-            return false;
-        }
-    } else {
-        // Default event format (no event type)
+        int replayed_count = 0;
+        for (int count = 0; count < data->stored_event_count; count++) {
+            int current = (data->event_head + count) % MAX_SSE_STORED_EVENTS;
+            sse_event_t* stored = &data->stored_events[current];
 
-        // Step 1: Write ID field ("id: [id]\n")
-        result = write_sse_field(wsi, SSE_FIELD_ID, id_str);
-        if (!result) {
-            mcp_log_error("Failed to write id field");
-            return false;
-        }
+            // Only send events with ID greater than last_event_id
+            if (atoi(stored->id) <= session->last_event_id ||
+                !session_matches_filter(session, stored->event) ||
+                !session_matches_id(session, data->stored_event_sessions[current])) {
+                continue;
+            }
 
-        // Step 2: Write data field ("data: [data]\n\n")
-        result = write_sse_field(wsi, SSE_FIELD_DATA, data);
-        if (!result) {
-            mcp_log_error("Failed to write data field");
-            return false;
+            if (send_sse_event_to_client(session, stored->event, stored->data, stored->id)) {
+                replayed_count++;
+            }
         }
 
-        // End with double newline to complete the event
-        result = lws_write_http(wsi, "\n", 1);
-        if (result < 0) {
-            mcp_log_error("Failed to write final newlines");
-            return false;
-        }
+        mcp_mutex_unlock(data->event_mutex);
+        mcp_log_info("Replayed %d events to client", replayed_count);
     }
 
-    // Request a callback when the socket is writable again
-    // This ensures that libwebsockets will flush the data
+    data->sse_clients[data->sse_client_count++] = wsi;
     lws_callback_on_writable(wsi);
 
+    // Log the client connection with session details
+    mcp_log_info("Added SSE client #%d - session_id: %s, filter: %s",
+                data->sse_client_count,
+                session->session_id ? session->session_id : "NULL",
+                session->event_filter ? session->event_filter : "ALL");
+
+    mcp_mutex_unlock(data->sse_mutex);
     return true;
 }
 
@@ -526,29 +639,36 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         return -1;
     }
 
-    if (!is_valid_sse_text(event)) {
+    // An event type is a single line
+    if (event != NULL && (!is_valid_sse_text(event) || strpbrk(event, "\r\n") != NULL)) {
         mcp_log_error("Invalid characters in SSE event type");
         return -1;
     }
 
-    if (!is_valid_sse_text(session_id)) {
+    if (session_id != NULL && !is_valid_sse_text(session_id)) {
         mcp_log_error("Invalid characters in SSE session ID");
         return -1;
     }
 
     http_transport_data_t* transport_data = (http_transport_data_t*)transport->transport_data;
 
-    // Store the event for replay on reconnection (for clients that join later)
-    store_sse_event(transport_data, event, data);
+    // Lock the SSE mutex to safely access the client list. It is held while the event
+    // is stored, so that all clients see the events in the order of their IDs.
+    mcp_mutex_lock(transport_data->sse_mutex);
 
-    // Get the current event ID (already incremented in store_sse_event)
-    int event_id = transport_data->next_event_id - 1;
+    // Store the event for replay on reconnection (for clients that join later)
+    int event_id = store_sse_event(transport_data, event, data, session_id);
+    if (event_id < 0) {
+        mcp_mutex_unlock(transport_data->sse_mutex);
+        return -1;
+    }
 
     // Format the event ID as a string for SSE protocol
     char id_str[SSE_ID_BUFFER_SIZE];
     int id_len = snprintf(id_str, sizeof(id_str), "%d", event_id);
     if (id_len < 0 || id_len >= (int)sizeof(id_str)) {
         mcp_log_error("Event ID buffer overflow: ID %d exceeds buffer size", event_id);
+        mcp_mutex_unlock(transport_data->sse_mutex);
         return -1;
     }
 
@@ -557,9 +677,6 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
                  id_str, event ? event : "(default)", strlen(data),
                  session_id ? session_id : "broadcast");
 
-    // Lock the SSE mutex to safely access the client list
-    mcp_mutex_lock(transport_data->sse_mutex);
-
     // Early return if no clients are connected
     if (transport_data->sse_client_count <= 0) {
         mcp_log_warn("No SSE clients connected, event will be stored but not delivered");
@@ -596,7 +713,7 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         matched_clients++;
 
         // Send the event to this client
-        if (send_sse_event_to_client(wsi, event, data, id_str)) {
+        if (send_sse_event_to_client(session, event, data, id_str)) {
             // Success - update counters and client state
             success_count++;
 
@@ -610,6 +727,11 @@ int mcp_http_transport_send_sse(mcp_transport_t* transport, const char* event,
         }
     }
 
+    // Let the event thread write what was queued
+    if (success_count > 0 && transport_data->context != NULL) {
+        lws_cancel_service(transport_data->context);
+    }
+
     // Release the mutex as soon as possible
     mcp_mutex_unlock(transport_data->sse_mutex);
 
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index ea3368b..a79fff2 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -140,6 +140,11 @@ static void free_stored_sse_events(http_transport_data_t* data) {
             data->stored_events[current].data = NULL;
         }
 
+        if (data->stored_event_sessions[current]) {
+            free(data->stored_event_sessions[current]);
+            data->stored_event_sessions[current] = NULL;
+        }
+
         // Move to the next event in the circular buffer
         current = (current + 1) % MAX_SSE_STORED_EVENTS;
         count++;
@@ -569,8 +574,14 @@ static int http_transport_stop(mcp_transport_t* transport) {
     // Destroy libwebsockets context
     if (data->context != NULL) {
         mcp_log_info("Destroying libwebsockets context...");
-        lws_context_destroy(data->context);
+
+        // Events sent from now on are only stored
+        mcp_mutex_lock(data->sse_mutex);
+        struct lws_context* context = data->context;
         data->context = NULL;
+        mcp_mutex_unlock(data->sse_mutex);
+
+        lws_context_destroy(context);
     }
 
     mcp_log_info("HTTP transport stopped");
-- 
2.43.0


From 0f479bc6d8dbffd2967f59d6012e2fc3caeb9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 092/120] fix: measure socket wait timeouts in milliseconds

mcp_socket_wait_readable() took the difference of two time() values, so a wait of 1500 ms ended anywhere between 1000 and 2000 ms.
---
 src/common/mcp_socket_utils.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index 702cd9b..f13cab7 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -1,5 +1,6 @@
 #include "mcp_socket_utils.h"
 #include "mcp_log.h"
+#include "mcp_sys_utils.h"
 #include "mcp_memory_pool.h"
 #include "mcp_cache_aligned.h"
 
@@ -1010,10 +1011,10 @@ typedef MCP_CACHE_ALIGNED struct {
     int timeout_ms;                // Timeout in milliseconds
     volatile bool* stop_flag;      // Optional stop flag
     int result;                    // Result of the wait operation
-    time_t start_time;             // Start time for timeout calculation
+    long long start_time;          // Start time in milliseconds for timeout calculation
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE - sizeof(socket_t) - sizeof(bool *)
-                                     - 2 * sizeof(int) - sizeof(time_t)];
+                                     - 2 * sizeof(int) - sizeof(long long)];
 } socket_wait_state_t;
 
 #ifdef _MSC_VER
@@ -1054,7 +1055,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
     state->timeout_ms = timeout_ms;
     state->stop_flag = stop_flag;
     state->result = 0;
-    state->start_time = time(NULL);
+    state->start_time = mcp_get_time_ms();
 
 #ifdef _WIN32
     fd_set read_fds;
@@ -1116,8 +1117,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Finite timeout
-                time_t current_time = time(NULL);
-                long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+                long elapsed_ms = (long)(mcp_get_time_ms() - state->start_time);
 
                 if (elapsed_ms >= timeout_ms) {
                     socket_utils_free(state);
@@ -1177,8 +1177,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
             current_timeout = 0;
         } else {
             // Calculate remaining time
-            time_t current_time = time(NULL);
-            long elapsed_ms = (long)(difftime(current_time, state->start_time) * 1000);
+            long elapsed_ms = (long)(mcp_get_time_ms() - state->start_time);
 
             if (elapsed_ms >= timeout_ms) {
                 socket_utils_free(state);
@@ -1216,8 +1215,7 @@ int mcp_socket_wait_readable(socket_t sock, int timeout_ms, volatile bool* stop_
                 return 0; // Timed out immediately
             } else {
                 // Check if the overall timeout has expired
-                time_t current_time = time(NULL);
-                if (difftime(current_time, state->start_time) * 1000 >= timeout_ms) {
+                if (mcp_get_time_ms() - state->start_time >= timeout_ms) {
                     socket_utils_free(state);
                     return 0; // Final timeout expired
                 }
-- 
2.43.0


From d0bd52c8e2adcf512718d29854eef91e0b623fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 093/120] fix: wait for connections with poll and check their
 outcome

On POSIX select() only takes descriptors below FD_SETSIZE and marks a failed connect() as writable, not as exceptional.
---
 src/common/mcp_socket_utils.c | 142 +++++++++++++---------------------
 1 file changed, 55 insertions(+), 87 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index f13cab7..22542a9 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -444,6 +444,45 @@ int mcp_socket_set_timeout(socket_t sock, uint32_t timeout_ms) {
     return 0;
 }
 
+/**
+ * @brief Waits until a connect() in progress has completed or failed.
+ *
+ * @param sock The socket descriptor
+ * @param timeout_ms Timeout in milliseconds
+ * @return Positive if the connect() has ended, 0 on timeout, negative on error
+ */
+static int wait_for_connect(socket_t sock, uint32_t timeout_ms) {
+#ifdef _WIN32
+    fd_set write_fds, error_fds;
+    FD_ZERO(&write_fds);
+    FD_ZERO(&error_fds);
+    FD_SET(sock, &write_fds);
+    FD_SET(sock, &error_fds);
+
+    struct timeval tv;
+    tv.tv_sec = timeout_ms / 1000;
+    tv.tv_usec = (timeout_ms % 1000) * 1000;
+
+    // Windows select first parameter is ignored
+    return select(0, NULL, &write_fds, &error_fds, &tv);
+#else
+    // poll() takes any descriptor, select() only those below FD_SETSIZE
+    struct pollfd pfd;
+    pfd.fd = sock;
+    pfd.events = POLLOUT;
+
+    const long long deadline = mcp_get_time_ms() + timeout_ms;
+    int result;
+    do {
+        long long remaining_ms = deadline - mcp_get_time_ms();
+        if (remaining_ms < 0) remaining_ms = 0;
+        pfd.revents = 0;
+        result = poll(&pfd, 1, remaining_ms > INT_MAX ? INT_MAX : (int)remaining_ms);
+    } while (result < 0 && errno == EINTR);
+    return result;
+#endif
+}
+
 /**
  * @brief Connects to a server address with timeout. Uses non-blocking connect internally.
  *
@@ -521,23 +560,7 @@ socket_t mcp_socket_connect(const char* host, uint16_t port, uint32_t timeout_ms
                 }
 
                 // Wait for the socket to become writable (connection complete)
-                fd_set write_fds, error_fds;
-                FD_ZERO(&write_fds);
-                FD_ZERO(&error_fds);
-                FD_SET(sock, &write_fds);
-                FD_SET(sock, &error_fds);
-
-                struct timeval tv;
-                tv.tv_sec = timeout_ms / 1000;
-                tv.tv_usec = (timeout_ms % 1000) * 1000;
-
-#ifdef _WIN32
-                // Windows select first parameter is ignored
-                result = select(0, NULL, &write_fds, &error_fds, &tv);
-#else
-                // POSIX select needs max fd + 1
-                result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
-#endif
+                result = wait_for_connect(sock, timeout_ms);
 
                 if (result == 0) {
                     // Timeout
@@ -546,37 +569,26 @@ socket_t mcp_socket_connect(const char* host, uint16_t port, uint32_t timeout_ms
                     sock = MCP_INVALID_SOCKET;
                     continue;
                 } else if (result == MCP_SOCKET_ERROR) {
-                    // Select error
-                    log_socket_error("select() failed during connect", sock, mcp_socket_get_lasterror(), false);
+                    // Wait error
+                    log_socket_error("Waiting for connect() failed", sock, mcp_socket_get_lasterror(), false);
                     mcp_socket_close(sock);
                     sock = MCP_INVALID_SOCKET;
                     continue;
                 }
 
-                // Check if the socket is writable or has an error
-                if (FD_ISSET(sock, &error_fds)) {
-                    // Get the actual connect error
-                    int error = 0;
-                    socklen_t error_len = sizeof(error);
-
-                    if (getsockopt(sock, SOL_SOCKET, SO_ERROR, (char*)&error, &error_len) == 0) {
-                        if (error != 0) {
-                            mcp_log_warn("Connection to %s:%u failed: %d", host, port, error);
-                            mcp_socket_close(sock);
-                            sock = MCP_INVALID_SOCKET;
-                            continue;
-                        }
-                    } else {
-                        log_socket_error("getsockopt(SO_ERROR) failed", sock, mcp_socket_get_lasterror(), false);
+                // A failed connection makes the socket writable too, so get the actual connect error
+                int error = 0;
+                socklen_t error_len = sizeof(error);
+
+                if (getsockopt(sock, SOL_SOCKET, SO_ERROR, (char*)&error, &error_len) == 0) {
+                    if (error != 0) {
+                        mcp_log_warn("Connection to %s:%u failed: %d", host, port, error);
                         mcp_socket_close(sock);
                         sock = MCP_INVALID_SOCKET;
                         continue;
                     }
-                }
-
-                if (!FD_ISSET(sock, &write_fds)) {
-                    // Socket is not writable, connection failed
-                    mcp_log_warn("Connection to %s:%u failed: socket not writable", host, port);
+                } else {
+                    log_socket_error("getsockopt(SO_ERROR) failed", sock, mcp_socket_get_lasterror(), false);
                     mcp_socket_close(sock);
                     sock = MCP_INVALID_SOCKET;
                     continue;
@@ -1461,23 +1473,7 @@ socket_t mcp_socket_connect_nonblocking(const char* host, uint16_t port, uint32_
             }
 
             // Connection in progress, wait for completion or timeout
-            fd_set write_fds, error_fds;
-            FD_ZERO(&write_fds);
-            FD_ZERO(&error_fds);
-            FD_SET(sock, &write_fds);
-            FD_SET(sock, &error_fds);
-
-            struct timeval tv;
-            tv.tv_sec = timeout_ms / 1000;
-            tv.tv_usec = (timeout_ms % 1000) * 1000;
-
-#ifdef _WIN32
-            // Windows select first parameter is ignored
-            result = select(0, NULL, &write_fds, &error_fds, &tv);
-#else
-            // POSIX select needs max fd + 1
-            result = select(sock + 1, NULL, &write_fds, &error_fds, &tv);
-#endif
+            result = wait_for_connect(sock, timeout_ms);
 
             if (result == 0) {
                 // Timeout
@@ -1487,45 +1483,17 @@ socket_t mcp_socket_connect_nonblocking(const char* host, uint16_t port, uint32_
                 continue;
             } else if (result < 0) {
                 // Select error
-                mcp_log_error("select() failed during connect: %d", mcp_socket_get_lasterror());
-                mcp_socket_close(sock);
-                sock = MCP_INVALID_SOCKET;
-                continue;
-            }
-
-            // Check if socket has an error
-            if (FD_ISSET(sock, &error_fds)) {
-                int error = 0;
-                socklen_t len = sizeof(error);
-
-                if (getsockopt(sock, SOL_SOCKET, SO_ERROR, (char*)&error, &len) < 0) {
-                    mcp_log_error("getsockopt(SO_ERROR) failed: %d", mcp_socket_get_lasterror());
-                    mcp_socket_close(sock);
-                    sock = MCP_INVALID_SOCKET;
-                    continue;
-                }
-
-                if (error != 0) {
-                    mcp_log_debug("Connection failed with error: %d", error);
-                    mcp_socket_close(sock);
-                    sock = MCP_INVALID_SOCKET;
-                    continue;
-                }
-            }
-
-            // Check if socket is writable (connected)
-            if (!FD_ISSET(sock, &write_fds)) {
-                mcp_log_warn("Socket not writable after select()");
+                mcp_log_error("Waiting for connect() failed: %d", mcp_socket_get_lasterror());
                 mcp_socket_close(sock);
                 sock = MCP_INVALID_SOCKET;
                 continue;
             }
 
-            // Double-check connection status
+            // A failed connection makes the socket writable too, check its status
             int error = 0;
             socklen_t len = sizeof(error);
             if (getsockopt(sock, SOL_SOCKET, SO_ERROR, (char*)&error, &len) < 0 || error != 0) {
-                mcp_log_debug("Connection failed after select: %d", error ? error : mcp_socket_get_lasterror());
+                mcp_log_debug("Connection failed: %d", error ? error : mcp_socket_get_lasterror());
                 mcp_socket_close(sock);
                 sock = MCP_INVALID_SOCKET;
                 continue;
-- 
2.43.0


From b424e43b8b9d683e632263addae4a108652fb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 094/120] fix: read HTTP answers whole in the HTTP client

Headers may arrive in any number of pieces and together with a part of the body; the body ends where Content-Length or the last chunk says.
---
 src/transport/internal/http_client_utils.h |  21 +++
 src/transport/mcp_http_client_request.c    | 195 +++++++++++++--------
 src/transport/mcp_http_client_utils.c      |  66 ++++++-
 3 files changed, 204 insertions(+), 78 deletions(-)

diff --git a/src/transport/internal/http_client_utils.h b/src/transport/internal/http_client_utils.h
index afde522..155b6b2 100644
--- a/src/transport/internal/http_client_utils.h
+++ b/src/transport/internal/http_client_utils.h
@@ -3,11 +3,32 @@
 
 #include <stdint.h>
 #include <stddef.h>
+#include <stdbool.h>
 
 #ifdef __cplusplus
 extern "C" {
 #endif
 
+// Part of a body in chunked encoding
+typedef enum {
+    HTTP_CHUNK_SIZE,             // Size of a chunk
+    HTTP_CHUNK_EXTENSION,        // Rest of the line after the size
+    HTTP_CHUNK_DATA,             // Data of a chunk
+    HTTP_CHUNK_DATA_END,         // End of line after the data
+    HTTP_CHUNK_TRAILER           // Lines after the last chunk
+} http_chunk_state_t;
+
+// Decoder for bodies in chunked encoding
+typedef struct {
+    http_chunk_state_t state;    // Part that comes next
+    size_t remaining;            // Bytes of the current chunk still to come
+    size_t length;               // Characters seen of the current line
+    bool done;                   // The last chunk has been seen
+    bool failed;                 // The encoding is invalid
+} http_chunk_decoder_t;
+
+size_t http_chunk_decode(http_chunk_decoder_t* decoder, char* data, size_t size);
+
 uint64_t extract_request_id(const char* json_data, size_t size);
 
 #ifdef __cplusplus
diff --git a/src/transport/mcp_http_client_request.c b/src/transport/mcp_http_client_request.c
index ab4d53d..ad578b6 100644
--- a/src/transport/mcp_http_client_request.c
+++ b/src/transport/mcp_http_client_request.c
@@ -1,12 +1,14 @@
 #include "internal/http_client_request.h"
 #include "internal/http_client_internal.h"
+#include "internal/http_client_utils.h"
 #include "mcp_log.h"
 #include "mcp_string_utils.h"
 #include "mcp_socket_utils.h"
+#include "mcp_sys_utils.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
-#include <time.h>
+#include <errno.h>
 
 #ifdef _WIN32
 #include <winsock2.h>
@@ -26,6 +28,7 @@
 #define HTTP_READ_BUFFER_SIZE 4096
 // Default select timeout in milliseconds
 #define HTTP_SELECT_TIMEOUT_MS 100
+#define HTTP_SEND_CHUNK_SIZE (1024 * 1024)
 
 /**
  * @brief Creates an HTTP response structure.
@@ -205,26 +208,27 @@ static bool connect_to_server(socket_t sock, const char* host, int port) {
     }
 
     // Resolve host
-    struct hostent* server = gethostbyname(host);
-    if (server == NULL) {
+    struct addrinfo hints;
+    struct addrinfo* server = NULL;
+    char port_str[16];
+    memset(&hints, 0, sizeof(hints));
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    snprintf(port_str, sizeof(port_str), "%d", port);
+    if (getaddrinfo(host, port_str, &hints, &server) != 0 || server == NULL) {
         mcp_log_error("Failed to resolve host: %s (error: %d)", host, mcp_socket_get_lasterror());
         return false;
     }
 
     // Connect to server
-    struct sockaddr_in server_addr;
-    memset(&server_addr, 0, sizeof(server_addr));
-    server_addr.sin_family = AF_INET;
-    server_addr.sin_port = htons((u_short)port);
-    memcpy(&server_addr.sin_addr.s_addr, server->h_addr, server->h_length);
-
-    if (connect(sock, (struct sockaddr*)&server_addr, sizeof(server_addr)) == MCP_SOCKET_ERROR) {
+    bool connected = connect(sock, server->ai_addr, (socklen_t)server->ai_addrlen) != MCP_SOCKET_ERROR;
+    if (!connected) {
         mcp_log_error("Failed to connect to server: %s:%d (error: %d)",
                      host, port, mcp_socket_get_lasterror());
-        return false;
     }
 
-    return true;
+    freeaddrinfo(server);
+    return connected;
 }
 
 /**
@@ -286,6 +290,33 @@ static int build_http_request(char* buffer, size_t buffer_size, const char* path
     return request_len + end_len;
 }
 
+/**
+ * @brief Send all bytes of a buffer
+ *
+ * @param sock Socket to send to
+ * @param data Data to send
+ * @param size Size of the data
+ * @return true if everything was sent, false otherwise
+ */
+static bool send_all(socket_t sock, const char* data, size_t size) {
+    while (size > 0) {
+        int chunk = size > HTTP_SEND_CHUNK_SIZE ? HTTP_SEND_CHUNK_SIZE : (int)size;
+        int sent = (int)send(sock, data, chunk, MCP_SEND_FLAGS);
+        if (sent < 0) {
+#ifndef _WIN32
+            if (errno == EINTR) {
+                continue;
+            }
+#endif
+            return false;
+        }
+        data += sent;
+        size -= (size_t)sent;
+    }
+
+    return true;
+}
+
 /**
  * @brief Wait for socket to be readable with timeout
  *
@@ -294,22 +325,31 @@ static int build_http_request(char* buffer, size_t buffer_size, const char* path
  * @return int 1 if socket is readable, 0 on timeout, -1 on error
  */
 static int wait_for_socket(socket_t sock, uint32_t timeout_ms) {
-    fd_set readfds;
-    struct timeval tv;
-
-    FD_ZERO(&readfds);
-    FD_SET(sock, &readfds);
+    int result = mcp_socket_wait_readable(sock, (int)timeout_ms, NULL);
 
-    tv.tv_sec = timeout_ms / 1000;
-    tv.tv_usec = (timeout_ms % 1000) * 1000;
+    if (result < 0) {
+        mcp_log_error("Wait failed with error: %d", mcp_socket_get_lasterror());
+    }
 
-    int result = select((int)sock + 1, &readfds, NULL, NULL, &tv);
+    return result;
+}
 
-    if (result == -1) {
-        mcp_log_error("Select failed with error: %d", mcp_socket_get_lasterror());
+/**
+ * @brief Split the next line off a block of headers
+ *
+ * @param position Pointer to the start of the line (moved to the next line)
+ * @return char* The line, or NULL if there are no more lines
+ */
+static char* next_header_line(char** position) {
+    char* line = *position;
+    char* end = strstr(line, "\r\n");
+    if (end == NULL || end == line) {
+        return NULL;
     }
 
-    return result;
+    *end = '\0';
+    *position = end + 2;
+    return line;
 }
 
 /**
@@ -348,16 +388,20 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
     // Move pointer past the header delimiter
     *body_start_out += 4;
 
-    // Make a copy of the header buffer for parsing
-    char* header_copy = mcp_strdup(header_buffer);
+    // Make a copy of the headers for parsing
+    size_t header_len = (size_t)(*body_start_out - header_buffer);
+    char* header_copy = (char*)malloc(header_len + 1);
     if (header_copy == NULL) {
         mcp_log_error("Failed to allocate memory for header parsing");
         return false;
     }
+    memcpy(header_copy, header_buffer, header_len);
+    header_copy[header_len] = '\0';
 
     // Parse status code
-    char* status_line = strtok(header_copy, "\r\n");
-    if (status_line != NULL && strncmp(status_line, "HTTP/1.", 7) == 0) {
+    char* next_line = header_copy;
+    char* status_line = next_header_line(&next_line);
+    if (status_line != NULL && strncmp(status_line, "HTTP/1.", 7) == 0 && strlen(status_line) > 9) {
         *status_code_out = atoi(status_line + 9);
     } else {
         mcp_log_error("Invalid HTTP response: no status line found");
@@ -366,7 +410,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
     }
 
     // Parse headers
-    char* header_line = strtok(NULL, "\r\n");
+    char* header_line = next_header_line(&next_line);
     while (header_line != NULL) {
         // Parse Content-Type
         if (strncasecmp(header_line, "Content-Type:", 13) == 0) {
@@ -375,6 +419,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
             while (*value == ' ') {
                 value++;
             }
+            free(*content_type_out);
             *content_type_out = mcp_strdup(value);
         }
         // Parse Content-Length
@@ -390,7 +435,7 @@ static bool parse_http_headers(char* header_buffer, int* status_code_out,
             }
         }
 
-        header_line = strtok(NULL, "\r\n");
+        header_line = next_header_line(&next_line);
     }
 
     free(header_copy);
@@ -428,22 +473,20 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
     *response_data_out = NULL;
     *response_size_out = 0;
 
-    char buffer[HTTP_READ_BUFFER_SIZE];
-    char header_buffer[HTTP_HEADER_BUFFER_SIZE] = {0};
+    // The first reads may bring part of the body along with the headers
+    char header_buffer[HTTP_HEADER_BUFFER_SIZE + HTTP_READ_BUFFER_SIZE] = {0};
     int header_pos = 0;
     bool headers_done = false;
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_time_ms();
 
     mcp_log_info("Waiting for server response with timeout: %u ms", timeout_ms);
 
     while (!headers_done) {
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_time_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
             mcp_log_error("Timeout waiting for HTTP response headers");
             return false;
@@ -461,22 +504,17 @@ static bool read_http_headers(socket_t sock, uint32_t timeout_ms,
         }
 
         // Socket is readable, receive data
-        bytes_read = recv(sock, buffer, sizeof(buffer) - 1, 0);
-        if (bytes_read <= 0) {
-            mcp_log_error("recv returned %d, error: %d", bytes_read, mcp_socket_get_lasterror());
+        if (header_pos >= HTTP_HEADER_BUFFER_SIZE) {
+            mcp_log_error("HTTP header buffer overflow");
             return false;
         }
-        buffer[bytes_read] = '\0';
-
-        // Copy to header buffer
-        if (header_pos + bytes_read < (int)sizeof(header_buffer)) {
-            memcpy(header_buffer + header_pos, buffer, bytes_read);
-            header_pos += bytes_read;
-            header_buffer[header_pos] = '\0';
-        } else {
-            mcp_log_error("HTTP header buffer overflow");
+        bytes_read = recv(sock, header_buffer + header_pos, (int)(sizeof(header_buffer) - 1) - header_pos, 0);
+        if (bytes_read <= 0) {
+            mcp_log_error("recv returned %d, error: %d", bytes_read, mcp_socket_get_lasterror());
             return false;
         }
+        header_pos += bytes_read;
+        header_buffer[header_pos] = '\0';
 
         // Check if headers are complete
         if (strstr(header_buffer, "\r\n\r\n") != NULL) {
@@ -527,6 +565,7 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
 
     // If we already have all the data, return success
     if (*response_size >= (size_t)content_length) {
+        *response_size = (size_t)content_length;
         mcp_log_debug("Already received complete response body (%zu bytes)", *response_size);
         return true;
     }
@@ -535,8 +574,7 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_time_ms();
 
     mcp_log_debug("Reading body with Content-Length: %d (already read: %zu bytes)",
                  content_length, *response_size);
@@ -544,12 +582,11 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
     // Continue reading until we have the full content or timeout
     while (*response_size < (size_t)content_length) {
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_time_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
-            mcp_log_warn("Timeout reading HTTP response body, returning partial response (%zu/%d bytes)",
-                        *response_size, content_length);
-            return true;  // Return true with partial data
+            mcp_log_error("Timeout reading HTTP response body (%zu/%d bytes)",
+                         *response_size, content_length);
+            return false;
         }
 
         // Calculate remaining timeout for select
@@ -583,9 +620,9 @@ static bool read_http_body_with_length(socket_t sock, uint32_t timeout_ms,
                 mcp_log_error("recv failed during body read with error: %d", mcp_socket_get_lasterror());
                 return false;
             } else {
-                mcp_log_debug("Connection closed by server after reading %zu/%d bytes",
+                mcp_log_error("Connection closed by server after reading %zu/%d bytes",
                              *response_size, content_length);
-                return true;  // Return true with partial data
+                return false;
             }
         }
 
@@ -628,21 +665,28 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
     int bytes_read;
 
     // Set up timeout tracking
-    time_t start_time = time(NULL);
-    time_t current_time;
+    long long start_time = mcp_get_time_ms();
 
     mcp_log_debug("Reading body with %s encoding",
                  chunked ? "chunked" : "unknown length");
 
-    // For simplicity, we'll just read until the connection is closed or timeout
-    // A proper implementation would parse chunked encoding
-    while (1) {
+    // Without chunked encoding the body ends when the connection is closed
+    http_chunk_decoder_t decoder = {0};
+    if (chunked && *response_size > 0) {
+        *response_size = http_chunk_decode(&decoder, *response_data, *response_size);
+    }
+
+    while (!chunked || !decoder.done) {
+        if (decoder.failed) {
+            mcp_log_error("Invalid chunked encoding in HTTP response body");
+            return false;
+        }
+
         // Check for timeout
-        current_time = time(NULL);
-        unsigned long elapsed_ms = (unsigned long)((current_time - start_time) * 1000);
+        unsigned long elapsed_ms = (unsigned long)(mcp_get_time_ms() - start_time);
         if (elapsed_ms >= timeout_ms) {
-            mcp_log_warn("Timeout reading HTTP response body, returning partial response");
-            return true;  // Return true with partial data
+            mcp_log_error("Timeout reading HTTP response body");
+            return false;
         }
 
         // Calculate remaining timeout for select
@@ -671,7 +715,7 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
                 return false;
             } else {
                 mcp_log_debug("Connection closed by server after reading %zu bytes", *response_size);
-                return true;  // Connection closed normally
+                return !chunked;  // Connection closed normally unless chunks are missing
             }
         }
 
@@ -684,10 +728,13 @@ static bool read_http_body_unknown_length(socket_t sock, uint32_t timeout_ms,
 
         *response_data = new_data;
         memcpy(*response_data + *response_size, buffer, bytes_read);
-        *response_size += bytes_read;
+        *response_size += chunked ?
+            http_chunk_decode(&decoder, *response_data + *response_size, (size_t)bytes_read) : (size_t)bytes_read;
 
         mcp_log_debug("Read %d bytes, total: %zu", bytes_read, *response_size);
     }
+
+    return true;
 }
 
 /**
@@ -760,10 +807,8 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Send request headers
-    int sent_len = send(sock, request, request_len, 0);
-    if (sent_len != request_len) {
-        mcp_log_error("Failed to send HTTP request headers: actual: %d, expected: %d",
-                     sent_len, request_len);
+    if (!send_all(sock, request, (size_t)request_len)) {
+        mcp_log_error("Failed to send HTTP request headers: %d", mcp_socket_get_lasterror());
         mcp_socket_close(sock);
         free(host);
         free(path);
@@ -771,10 +816,8 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Send request body
-    sent_len = send(sock, data, (int)size, 0);
-    if (sent_len != (int)size) {
-        mcp_log_error("Failed to send HTTP request body: actual: %d, expected: %d",
-                     sent_len, (int)size);
+    if (!send_all(sock, (const char*)data, size)) {
+        mcp_log_error("Failed to send HTTP request body: %d", mcp_socket_get_lasterror());
         mcp_socket_close(sock);
         free(host);
         free(path);
@@ -806,7 +849,7 @@ http_response_t* http_post_request(const char* url, const char* content_type,
     }
 
     // Read response body
-    if (content_length > 0) {
+    if (content_length >= 0 && !chunked_encoding) {
         // Known content length
         if (!read_http_body_with_length(sock, timeout_ms, content_length,
                                        &response_data, &response_size)) {
diff --git a/src/transport/mcp_http_client_utils.c b/src/transport/mcp_http_client_utils.c
index 591d879..6b2ff45 100644
--- a/src/transport/mcp_http_client_utils.c
+++ b/src/transport/mcp_http_client_utils.c
@@ -9,6 +9,8 @@
 #define JSON_RPC_ID_FIELD "\"id\":"
 // Default ID value when extraction fails
 #define DEFAULT_ID_VALUE 0
+// Largest number of digits of a chunk size
+#define MAX_CHUNK_SIZE_DIGITS 8
 
 /**
  * @brief Helper function to check if a character is a JSON whitespace character.
@@ -32,6 +34,60 @@ static int is_within_bounds(const char* current, const char* start, size_t size)
     return (current >= start) && ((size_t)(current - start) < size);
 }
 
+/**
+ * @brief Decode the next bytes of a body in chunked encoding in place.
+ *
+ * @param decoder State of the decoder (initialized with zeros)
+ * @param data The encoded bytes, replaced with the decoded ones
+ * @param size Number of encoded bytes
+ * @return size_t Number of decoded bytes
+ */
+size_t http_chunk_decode(http_chunk_decoder_t* decoder, char* data, size_t size) {
+    size_t out = 0;
+    size_t i = 0;
+
+    while (i < size && !decoder->done && !decoder->failed) {
+        if (decoder->state == HTTP_CHUNK_DATA) {
+            size_t len = size - i < decoder->remaining ? size - i : decoder->remaining;
+            memmove(data + out, data + i, len);
+            out += len;
+            i += len;
+            decoder->remaining -= len;
+            if (decoder->remaining == 0) {
+                decoder->state = HTTP_CHUNK_DATA_END;
+            }
+            continue;
+        }
+
+        char c = data[i++];
+
+        if (decoder->state == HTTP_CHUNK_SIZE && isxdigit((unsigned char)c)) {
+            int digit = isdigit((unsigned char)c) ? c - '0' : tolower((unsigned char)c) - 'a' + 10;
+            decoder->remaining = decoder->remaining * 16 + (size_t)digit;
+            decoder->failed = ++decoder->length > MAX_CHUNK_SIZE_DIGITS;
+        } else if (decoder->state == HTTP_CHUNK_SIZE && decoder->length == 0) {
+            decoder->failed = true;
+        } else if (c == '\n') {
+            // End of a line: a chunk's size, the end of its data or a trailer
+            if (decoder->state == HTTP_CHUNK_DATA_END) {
+                decoder->state = HTTP_CHUNK_SIZE;
+            } else if (decoder->state != HTTP_CHUNK_TRAILER) {
+                decoder->state = decoder->remaining > 0 ? HTTP_CHUNK_DATA : HTTP_CHUNK_TRAILER;
+            } else if (decoder->length == 0) {
+                decoder->done = true;
+            }
+            decoder->length = 0;
+        } else if (decoder->state == HTTP_CHUNK_SIZE) {
+            // Extensions of a chunk's size are ignored
+            decoder->state = HTTP_CHUNK_EXTENSION;
+        } else if (c != '\r') {
+            decoder->length++;
+        }
+    }
+
+    return out;
+}
+
 /**
  * @brief Extract request ID from JSON-RPC request.
  *
@@ -52,8 +108,14 @@ uint64_t extract_request_id(const char* json_data, size_t size) {
     const char* id_str = JSON_RPC_ID_FIELD;
     const size_t id_str_len = strlen(id_str);
 
-    // Use strstr to find the ID field
-    const char* id_pos = strstr(json_data, id_str);
+    // Find the ID field (the data need not be terminated)
+    const char* id_pos = NULL;
+    for (size_t i = 0; i + id_str_len <= size; i++) {
+        if (memcmp(json_data + i, id_str, id_str_len) == 0) {
+            id_pos = json_data + i;
+            break;
+        }
+    }
     if (id_pos == NULL) {
         mcp_log_debug("JSON-RPC ID field not found");
         return DEFAULT_ID_VALUE;
-- 
2.43.0


From 9dca54531ad244bac6a8075218b6b7fded53c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 095/120] fix: give each caller its own answer in the HTTP
 client

Answers are kept per calling thread until it receives them. Braces inside strings do not count when looking for the end of an answer. Stopping shuts the event socket down and leaves closing it to the event thread.
---
 src/transport/internal/http_client_internal.h |  11 +-
 src/transport/mcp_http_client_transport.c     | 138 +++++++++++-------
 2 files changed, 98 insertions(+), 51 deletions(-)

diff --git a/src/transport/internal/http_client_internal.h b/src/transport/internal/http_client_internal.h
index 7300918..fa037d7 100644
--- a/src/transport/internal/http_client_internal.h
+++ b/src/transport/internal/http_client_internal.h
@@ -12,6 +12,14 @@
 extern "C" {
 #endif
 
+// Response waiting to be received by the thread that sent the request
+typedef struct http_client_response {
+    char* data;                          // Response text
+    uint64_t request_id;                 // ID of the request
+    unsigned long thread_id;             // Thread that sent the request
+    struct http_client_response* next;   // Next waiting response
+} http_client_response_t;
+
 // Internal data structure for HTTP client transport
 typedef struct http_client_transport_data {
     char* host;                  // Host to connect to
@@ -37,8 +45,7 @@ typedef struct http_client_transport_data {
     mcp_transport_error_callback_t error_callback;
 
     // Response handling
-    char* last_response;         // Last HTTP response received
-    uint64_t last_request_id;    // ID of the last request sent
+    http_client_response_t* responses; // Responses not yet received
 } http_client_transport_data_t;
 
 #ifdef __cplusplus
diff --git a/src/transport/mcp_http_client_transport.c b/src/transport/mcp_http_client_transport.c
index 849d351..88e03b2 100644
--- a/src/transport/mcp_http_client_transport.c
+++ b/src/transport/mcp_http_client_transport.c
@@ -73,6 +73,39 @@ mcp_transport_t* mcp_transport_http_client_create(const char* host, uint16_t por
     return mcp_transport_http_client_create_with_config(&config);
 }
 
+/**
+ * @brief Frees a stored response.
+ *
+ * @param response The response to free (can be NULL)
+ */
+static void free_response(http_client_response_t* response) {
+    if (response != NULL) {
+        free(response->data);
+        free(response);
+    }
+}
+
+/**
+ * @brief Takes the response stored for a thread.
+ *
+ * Must be called with the mutex held.
+ *
+ * @param data The transport data
+ * @param thread_id The thread that sent the request
+ * @return http_client_response_t* The response, or NULL if there is none
+ */
+static http_client_response_t* take_response(http_client_transport_data_t* data, unsigned long thread_id) {
+    for (http_client_response_t** link = &data->responses; *link != NULL; link = &(*link)->next) {
+        if ((*link)->thread_id == thread_id) {
+            http_client_response_t* response = *link;
+            *link = response->next;
+            return response;
+        }
+    }
+
+    return NULL;
+}
+
 /**
  * @brief Helper function to clean up transport data on error.
  *
@@ -87,7 +120,12 @@ static void cleanup_transport_data(http_client_transport_data_t* data) {
     safe_free_string(&data->cert_path);
     safe_free_string(&data->key_path);
     safe_free_string(&data->api_key);
-    safe_free_string(&data->last_response);
+    safe_free_string(&data->last_event_id);
+    while (data->responses != NULL) {
+        http_client_response_t* response = data->responses;
+        data->responses = response->next;
+        free_response(response);
+    }
 
     // Clean up SSL context if it exists
     if (data->ssl_ctx != NULL) {
@@ -137,8 +175,7 @@ mcp_transport_t* mcp_transport_http_client_create_with_config(const mcp_http_cli
     data->ssl_ctx = NULL;
 
     // Initialize response handling
-    data->last_response = NULL;
-    data->last_request_id = 0;
+    data->responses = NULL;
 
     // Copy configuration
     data->host = mcp_strdup(config->host);
@@ -338,21 +375,16 @@ static int http_client_transport_stop(mcp_transport_t* transport) {
     // Set running flag to false to signal threads to stop
     data->running = false;
 
-    // Close the SSE socket and clean up SSL to unblock the event thread
+    // Shut down the SSE socket to unblock the event thread, which closes it
     mcp_mutex_lock(data->mutex);
 
-    // Clean up SSL if used
-    if (data->ssl_ctx != NULL) {
-        mcp_log_debug("Cleaning up SSL context");
-        http_client_ssl_cleanup(data->ssl_ctx);
-        data->ssl_ctx = NULL;
-    }
-
-    // Close socket
     if (data->sse_socket != MCP_INVALID_SOCKET) {
-        mcp_log_debug("Closing SSE socket to unblock event thread");
-        mcp_socket_close(data->sse_socket);
-        data->sse_socket = MCP_INVALID_SOCKET;
+        mcp_log_debug("Shutting down SSE socket to unblock event thread");
+#ifdef _WIN32
+        shutdown(data->sse_socket, SD_BOTH);
+#else
+        shutdown(data->sse_socket, SHUT_RDWR);
+#endif
     }
 
     mcp_mutex_unlock(data->mutex);
@@ -465,10 +497,19 @@ static char* clean_json_response(const char* response_data, size_t response_size
 
     // Find the end of the JSON data (in case there are trailing characters)
     if (clean_json[0] == '{') {
-        // Find the matching closing brace
+        // Find the matching closing brace, skipping braces within strings
         int brace_count = 1;
+        bool in_string = false;
         for (size_t i = 1; i < response_size; i++) {
-            if (clean_json[i] == '{') {
+            if (in_string) {
+                if (clean_json[i] == '\\') {
+                    i++;
+                } else if (clean_json[i] == '"') {
+                    in_string = false;
+                }
+            } else if (clean_json[i] == '"') {
+                in_string = true;
+            } else if (clean_json[i] == '{') {
                 brace_count++;
             } else if (clean_json[i] == '}') {
                 brace_count--;
@@ -573,25 +614,26 @@ static int http_client_transport_send(mcp_transport_t* transport, const void* da
             mcp_log_debug("HTTP client transport received response for request ID %llu (size: %zu bytes)",
                          (unsigned long long)request_id, strlen(clean_json));
 
-            // Store the response in the transport data structure
-            mcp_mutex_lock(data_struct->mutex);
-
-            // Free previous response if any
-            safe_free_string(&data_struct->last_response);
-
-            // Store the new response
-            data_struct->last_response = mcp_strdup(clean_json);
-            if (data_struct->last_response != NULL) {
-                data_struct->last_request_id = request_id;
+            // Store the response for the calling thread
+            http_client_response_t* stored = (http_client_response_t*)malloc(sizeof(http_client_response_t));
+            if (stored != NULL) {
+                mcp_mutex_lock(data_struct->mutex);
+
+                // Free a previous response of this thread if any
+                free_response(take_response(data_struct, mcp_get_thread_id()));
+
+                // Store the new response
+                stored->data = clean_json;
+                stored->request_id = request_id;
+                stored->thread_id = mcp_get_thread_id();
+                stored->next = data_struct->responses;
+                data_struct->responses = stored;
+                mcp_mutex_unlock(data_struct->mutex);
                 result = 0; // Success
             } else {
                 mcp_log_error("Failed to store HTTP response");
+                free(clean_json);
             }
-
-            mcp_mutex_unlock(data_struct->mutex);
-
-            // Free the temporary JSON data
-            free(clean_json);
         } else {
             mcp_log_error("Failed to clean JSON response");
         }
@@ -732,27 +774,25 @@ static int http_client_transport_receive(mcp_transport_t* transport, char** data
     // Get the stored response with thread safety
     mcp_mutex_lock(data_struct->mutex);
 
-    if (data_struct->last_response != NULL) {
-        // Make a copy of the response
-        *data = mcp_strdup(data_struct->last_response);
-        if (*data != NULL) {
-            *size = strlen(*data);
-            mcp_log_debug("HTTP client transport receive: Retrieved stored response (ID: %llu, %zu bytes)",
-                         (unsigned long long)data_struct->last_request_id, *size);
-
-            // Free the stored response to avoid memory leaks
-            safe_free_string(&data_struct->last_response);
-            data_struct->last_request_id = 0;
-
-            mcp_mutex_unlock(data_struct->mutex);
-            return 0;
-        } else {
-            mcp_log_error("Failed to duplicate response string");
-        }
+    // A thread gets the response to its own request
+    http_client_response_t* response = take_response(data_struct, mcp_get_thread_id());
+    if (response == NULL && data_struct->responses != NULL) {
+        response = take_response(data_struct, data_struct->responses->thread_id);
     }
 
     mcp_mutex_unlock(data_struct->mutex);
 
+    if (response != NULL) {
+        *data = response->data;
+        *size = strlen(*data);
+        mcp_log_debug("HTTP client transport receive: Retrieved stored response (ID: %llu, %zu bytes)",
+                     (unsigned long long)response->request_id, *size);
+
+        // The text now belongs to the caller
+        free(response);
+        return 0;
+    }
+
     mcp_log_debug("HTTP client transport receive: No stored response available");
     return -1;
 }
-- 
2.43.0


From d046e879f02a9b90cd0c7fa90ded90fffc82a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 096/120] fix: read event streams incrementally in the HTTP
 client

Lines may end in CR, LF or CRLF and arrive in pieces; an event is handed out at its blank line.
---
 src/transport/mcp_http_client_sse.c | 352 +++++++++++++++-------------
 1 file changed, 191 insertions(+), 161 deletions(-)

diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index 78e313e..3486389 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -9,6 +9,7 @@
 /* Internal headers */
 #include "internal/http_client_sse.h"
 #include "internal/http_client_internal.h"
+#include "internal/http_client_utils.h"
 #include "internal/transport_internal.h"
 #include "internal/http_client_ssl.h"
 
@@ -18,12 +19,14 @@
 #include "mcp_socket_utils.h"
 #include "mcp_sys_utils.h"
 #include "mcp_sync.h"
+#include "mcp_thread_local.h"
 #include "mcp_http_sse_common.h"
 
 /* Standard library headers */
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
+#include <ctype.h>
 #include <time.h>
 
 /* Platform-specific headers */
@@ -56,6 +59,8 @@
 #define SSE_BUFFER_SIZE        4096  /**< Maximum buffer size for SSE events */
 #define SSE_URL_MAX_LENGTH     256   /**< Maximum URL length for SSE endpoint */
 #define SSE_REQUEST_MAX_LENGTH 1024  /**< Maximum HTTP request length */
+#define SSE_ARENA_SIZE         (1024 * 1024)  /**< Size of the event thread's arena */
+#define SSE_LINE_MAX_LENGTH    (16 * 1024 * 1024)  /**< Maximum length of a line */
 
 /**
  * @brief Reconnection timing constants
@@ -80,105 +85,9 @@ static socket_t create_and_connect_socket(const char* host, uint16_t port, uint3
         return MCP_INVALID_SOCKET;
     }
 
-    // Create socket
-    socket_t sock = socket(AF_INET, SOCK_STREAM, 0);
+    socket_t sock = mcp_socket_connect(host, port, timeout_ms);
     if (sock == MCP_INVALID_SOCKET) {
-        mcp_log_error("Failed to create socket for connection: %d", mcp_socket_get_lasterror());
-        return MCP_INVALID_SOCKET;
-    }
-
-    // Set socket to non-blocking mode if timeout is specified
-    if (timeout_ms > 0) {
-#ifdef _WIN32
-        u_long mode = 1;
-        if (ioctlsocket(sock, FIONBIO, &mode) != 0) {
-            mcp_log_error("Failed to set socket to non-blocking mode: %d", mcp_socket_get_lasterror());
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-#else
-        int flags = fcntl(sock, F_GETFL, 0);
-        if (flags < 0 || fcntl(sock, F_SETFL, flags | O_NONBLOCK) < 0) {
-            mcp_log_error("Failed to set socket to non-blocking mode: %d", mcp_socket_get_lasterror());
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-#endif
-    }
-
-    // Resolve host
-    struct hostent* server = gethostbyname(host);
-    if (server == NULL) {
-        mcp_log_error("Failed to resolve host: %s (error: %d)", host, mcp_socket_get_lasterror());
-        mcp_socket_close(sock);
-        return MCP_INVALID_SOCKET;
-    }
-
-    // Prepare server address
-    struct sockaddr_in server_addr;
-    memset(&server_addr, 0, sizeof(server_addr));
-    server_addr.sin_family = AF_INET;
-    server_addr.sin_port = htons((u_short)port);
-    memcpy(&server_addr.sin_addr.s_addr, server->h_addr, server->h_length);
-
-    // Connect to server (with timeout if specified)
-    int connect_result = connect(sock, (struct sockaddr*)&server_addr, sizeof(server_addr));
-
-    // If using timeout and connect is in progress
-    if (timeout_ms > 0 && (connect_result == MCP_SOCKET_ERROR) &&
-        (mcp_socket_get_lasterror() == WSAEWOULDBLOCK ||
-         mcp_socket_get_lasterror() == WSAEINPROGRESS ||
-         mcp_socket_get_lasterror() == EINPROGRESS)) {
-
-        // Use select to wait for connection with timeout
-        fd_set write_fds;
-        FD_ZERO(&write_fds);
-        FD_SET(sock, &write_fds);
-
-        struct timeval tv;
-        tv.tv_sec = timeout_ms / 1000;
-        tv.tv_usec = (timeout_ms % 1000) * 1000;
-
-        // Wait for connection to complete or timeout
-        int select_result = select((int)sock + 1, NULL, &write_fds, NULL, &tv);
-        if (select_result <= 0) {
-            // Timeout or error
-            mcp_log_error("Connection to %s:%d timed out after %u ms", host, port, timeout_ms);
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-
-        // Check if connection was successful
-        int error = 0;
-        socklen_t error_len = sizeof(error);
-        if (getsockopt(sock, SOL_SOCKET, SO_ERROR, (char*)&error, &error_len) != 0 || error != 0) {
-            mcp_log_error("Connection to %s:%d failed: %d", host, port, error);
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-
-        // Set socket back to blocking mode
-#ifdef _WIN32
-        u_long mode = 0;
-        if (ioctlsocket(sock, FIONBIO, &mode) != 0) {
-            mcp_log_error("Failed to set socket back to blocking mode: %d", mcp_socket_get_lasterror());
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-#else
-        int flags = fcntl(sock, F_GETFL, 0);
-        if (flags < 0 || fcntl(sock, F_SETFL, flags & ~O_NONBLOCK) < 0) {
-            mcp_log_error("Failed to set socket back to blocking mode: %d", mcp_socket_get_lasterror());
-            mcp_socket_close(sock);
-            return MCP_INVALID_SOCKET;
-        }
-#endif
-    }
-    else if (connect_result == MCP_SOCKET_ERROR) {
-        // Connection failed immediately
-        mcp_log_error("Failed to connect to server: %s:%d (error: %d)",
-                     host, port, mcp_socket_get_lasterror());
-        mcp_socket_close(sock);
+        mcp_log_error("Failed to connect to server: %s:%d", host, port);
         return MCP_INVALID_SOCKET;
     }
 
@@ -246,7 +155,7 @@ static int build_and_send_sse_request(http_client_transport_data_t* data, socket
     }
 
     // Add Last-Event-ID header if available (for reconnection)
-    if (data->last_event_id != NULL) {
+    if (data->last_event_id != NULL && data->last_event_id[0] != '\0') {
         int id_len = snprintf(request + request_len, sizeof(request) - request_len,
                              "Last-Event-ID: %s\r\n", data->last_event_id);
 
@@ -287,7 +196,7 @@ static int build_and_send_sse_request(http_client_transport_data_t* data, socket
     if (data->use_ssl) {
         sent_len = http_client_ssl_write(data->ssl_ctx, request, request_len);
     } else {
-        sent_len = send(sock, request, request_len, 0);
+        sent_len = (int)send(sock, request, request_len, MCP_SEND_FLAGS);
     }
 
     if (sent_len != request_len) {
@@ -451,21 +360,31 @@ void process_sse_event(http_client_transport_data_t* data, const sse_event_t* ev
 }
 
 /**
- * @brief Helper function to trim leading spaces from a string.
+ * @brief Helper function to get the value of a field from an SSE line.
+ *
+ * A line consists of the field's name, a colon and the value; a space right
+ * after the colon does not belong to the value. Without colon the value is empty.
  *
- * @param str The string to trim
- * @return char* Pointer to the first non-space character
+ * @param line The line
+ * @param name Name of the field
+ * @return const char* The value, or NULL if the line is another field
  */
-static char* trim_leading_spaces(char* str) {
-    if (str == NULL) {
+static const char* get_field_value(const char* line, const char* name) {
+    size_t name_len = strlen(name);
+    if (strncmp(line, name, name_len) != 0) {
         return NULL;
     }
 
-    while (*str == ' ') {
-        str++;
+    line += name_len;
+    if (*line == '\0') {
+        return line;
+    }
+    if (*line != ':') {
+        return NULL;
     }
 
-    return str;
+    line++;
+    return *line == ' ' ? line + 1 : line;
 }
 
 /**
@@ -496,8 +415,8 @@ static char* append_to_event_data(char* event_data, const char* data_line) {
     }
 
     // Append newline and data line
-    strcat(new_data, "\n");
-    strcat(new_data, data_line);
+    new_data[old_len] = '\n';
+    memcpy(new_data + old_len + 1, data_line, line_len + 1);
 
     return new_data;
 }
@@ -517,24 +436,25 @@ static bool process_sse_line(const char* line, char** event_type, char** event_i
     }
 
     // Empty line indicates end of event
-    if (strlen(line) == 0) {
-        return *event_data != NULL;
+    if (line[0] == '\0') {
+        return true;
     }
 
+    const char* value;
+
     // Event type
-    if (strncmp(line, "event:", 6) == 0) {
+    if ((value = get_field_value(line, "event")) != NULL) {
         safe_free_string(event_type);
-        *event_type = mcp_strdup(trim_leading_spaces((char*)line + 6));
+        *event_type = mcp_strdup(value);
     }
     // Event ID
-    else if (strncmp(line, "id:", 3) == 0) {
+    else if ((value = get_field_value(line, "id")) != NULL) {
         safe_free_string(event_id);
-        *event_id = mcp_strdup(trim_leading_spaces((char*)line + 3));
+        *event_id = mcp_strdup(value);
     }
     // Event data
-    else if (strncmp(line, "data:", 5) == 0) {
-        char* data_line = trim_leading_spaces((char*)line + 5);
-        *event_data = append_to_event_data(*event_data, data_line);
+    else if ((value = get_field_value(line, "data")) != NULL) {
+        *event_data = append_to_event_data(*event_data, value);
     }
 
     return false;
@@ -553,6 +473,140 @@ static void cleanup_event_state(char** event_type, char** event_id, char** event
     safe_free_string(event_data);
 }
 
+/**
+ * @brief State of reading one event stream.
+ */
+typedef struct {
+    char* line;                    /**< Bytes of the line (or headers) received so far */
+    size_t line_len;               /**< Number of bytes */
+    size_t line_size;              /**< Size of the buffer */
+    bool headers_done;             /**< Whether the response headers have been read */
+    bool chunked;                  /**< Whether the body uses chunked encoding */
+    bool after_cr;                 /**< Whether the last line ended with a carriage return */
+    http_chunk_decoder_t decoder;  /**< Decoder for chunked encoding */
+    char* event_type;              /**< Type of the event being read */
+    char* event_id;                /**< ID of the event being read */
+    char* event_data;              /**< Data of the event being read */
+} sse_reader_t;
+
+/**
+ * @brief Add a byte to the line being read.
+ *
+ * @param reader The reader
+ * @param c The byte
+ * @return bool true on success, false if the line is too long or memory is exhausted
+ */
+static bool add_to_line(sse_reader_t* reader, char c) {
+    if (reader->line_len + 1 >= reader->line_size) {
+        size_t new_size = reader->line_size > 0 ? 2 * reader->line_size : SSE_BUFFER_SIZE;
+        char* new_line = new_size <= SSE_LINE_MAX_LENGTH ? (char*)realloc(reader->line, new_size) : NULL;
+        if (new_line == NULL) {
+            mcp_log_error("SSE line too long (%zu bytes)", reader->line_len);
+            return false;
+        }
+        reader->line = new_line;
+        reader->line_size = new_size;
+    }
+
+    reader->line[reader->line_len++] = c;
+    reader->line[reader->line_len] = '\0';
+    return true;
+}
+
+/**
+ * @brief Read the response headers of an event stream.
+ *
+ * @param reader The reader
+ * @param buffer Bytes received
+ * @param size Number of bytes
+ * @return int Number of bytes used, or -1 if this is not an event stream
+ */
+static int read_sse_headers(sse_reader_t* reader, const char* buffer, int size) {
+    int i = 0;
+    while (i < size && !reader->headers_done) {
+        if (!add_to_line(reader, buffer[i++])) {
+            return -1;
+        }
+        reader->headers_done = reader->line_len >= 4 &&
+            memcmp(reader->line + reader->line_len - 4, "\r\n\r\n", 4) == 0;
+    }
+
+    if (reader->headers_done) {
+        if (strncmp(reader->line, "HTTP/1.", 7) != 0 || strncmp(reader->line + 8, " 200", 4) != 0) {
+            mcp_log_error("SSE request failed: %.32s", reader->line);
+            return -1;
+        }
+
+        for (char* c = reader->line; *c != '\0'; c++) {
+            *c = (char)tolower((unsigned char)*c);
+        }
+        const char* encoding = strstr(reader->line, "\r\ntransfer-encoding:");
+        reader->chunked = encoding != NULL && strncmp(encoding + 20 + strspn(encoding + 20, " "), "chunked", 7) == 0;
+        reader->line_len = 0;
+    }
+
+    return i;
+}
+
+/**
+ * @brief Process bytes received from an event stream.
+ *
+ * @param data Transport data
+ * @param reader The reader
+ * @param buffer Bytes received
+ * @param size Number of bytes
+ * @return bool true to go on reading, false if the connection is of no use any more
+ */
+static bool process_sse_bytes(http_client_transport_data_t* data, sse_reader_t* reader, char* buffer, int size) {
+    if (!reader->headers_done) {
+        int used = read_sse_headers(reader, buffer, size);
+        if (used < 0) {
+            return false;
+        }
+        buffer += used;
+        size -= used;
+    }
+
+    if (reader->chunked) {
+        size = (int)http_chunk_decode(&reader->decoder, buffer, (size_t)size);
+    }
+
+    for (int i = 0; i < size && data->running; i++) {
+        // Lines end with LF, CR or both
+        if (buffer[i] == '\n' && reader->after_cr) {
+            reader->after_cr = false;
+            continue;
+        }
+        reader->after_cr = buffer[i] == '\r';
+        if (buffer[i] != '\n' && buffer[i] != '\r') {
+            if (!add_to_line(reader, buffer[i])) {
+                return false;
+            }
+            continue;
+        }
+
+        const char* line = reader->line_len > 0 ? reader->line : "";
+        reader->line_len = 0;
+        if (process_sse_line(line, &reader->event_type, &reader->event_id, &reader->event_data)) {
+            if (reader->event_data != NULL || reader->event_id != NULL) {
+                // Event is complete, process it
+                sse_event_t* event = sse_event_create(reader->event_id, reader->event_type, reader->event_data);
+                if (event != NULL) {
+                    process_sse_event(data, event);
+                    sse_event_free(event);
+                } else {
+                    mcp_log_error("Failed to create SSE event");
+                }
+            }
+
+            // Reset event state
+            cleanup_event_state(&reader->event_type, &reader->event_id, &reader->event_data);
+        }
+    }
+
+    return !reader->decoder.done && !reader->decoder.failed;
+}
+
 /**
  * @brief Helper function to wait for a specified time while checking the running flag.
  *
@@ -605,6 +659,15 @@ void* http_client_event_thread_func(void* arg) {
 
     mcp_log_info("HTTP client event thread started");
 
+    // The message callback parses messages in this thread
+    if (mcp_arena_init_current_thread(SSE_ARENA_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena for SSE event thread");
+        return NULL;
+    }
+
+    int successful_connections = 0;
+    int reconnect_attempts = 0;
+
     // Main connection loop - continue while running flag is set
     while (data->running) {
         // Connect to SSE endpoint
@@ -622,8 +685,6 @@ void* http_client_event_thread_func(void* arg) {
         data->sse_socket = sock;
         mcp_mutex_unlock(data->mutex);
 
-        // Reset reconnect counter on successful connection
-        static int successful_connections = 0;
         successful_connections++;
 
         // Log with connection count for better diagnostics
@@ -632,9 +693,7 @@ void* http_client_event_thread_func(void* arg) {
 
         // Initialize buffer and event parsing state
         char buffer[SSE_BUFFER_SIZE];
-        char* event_type = NULL;
-        char* event_id = NULL;
-        char* event_data = NULL;
+        sse_reader_t reader = {0};
         int bytes_read = 0;
 
         // Initialize heartbeat tracking
@@ -643,18 +702,8 @@ void* http_client_event_thread_func(void* arg) {
 
         // Event reading loop - continue while running flag is set and connection is active
         while (data->running) {
-            // Set up select for timeout on receive
-            fd_set read_fds;
-            FD_ZERO(&read_fds);
-            FD_SET(sock, &read_fds);
-
-            // Set timeout for select
-            struct timeval tv;
-            tv.tv_sec = SSE_HEARTBEAT_INTERVAL_MS / 1000;
-            tv.tv_usec = (SSE_HEARTBEAT_INTERVAL_MS % 1000) * 1000;
-
             // Wait for data or timeout
-            int select_result = select((int)sock + 1, &read_fds, NULL, NULL, &tv);
+            int select_result = mcp_socket_wait_readable(sock, SSE_HEARTBEAT_INTERVAL_MS, NULL);
 
             // Check if we need to reconnect due to inactivity
             time_t current_time = time(NULL);
@@ -687,9 +736,9 @@ void* http_client_event_thread_func(void* arg) {
 
             // Receive data from the socket
             if (data->use_ssl) {
-                bytes_read = http_client_ssl_read(data->ssl_ctx, buffer, sizeof(buffer) - 1);
+                bytes_read = http_client_ssl_read(data->ssl_ctx, buffer, sizeof(buffer));
             } else {
-                bytes_read = recv(sock, buffer, sizeof(buffer) - 1, 0);
+                bytes_read = recv(sock, buffer, sizeof(buffer), 0);
             }
 
             // Check for connection errors or closure
@@ -701,31 +750,11 @@ void* http_client_event_thread_func(void* arg) {
             last_activity_time = time(NULL);
             timeout_counter = 0;  // Reset counter when data is received
 
-            // Null-terminate the received data for string operations
-            buffer[bytes_read] = '\0';
-
             mcp_log_debug("Received %d bytes from SSE endpoint", bytes_read);
 
             // Parse SSE events line by line
-            char* line = strtok(buffer, "\r\n");
-            while (line != NULL && data->running) {
-                // Process the line and check if an event is complete
-                if (process_sse_line(line, &event_type, &event_id, &event_data)) {
-                    // Create and process the complete event
-                    sse_event_t* event = sse_event_create(event_id, event_type, event_data);
-                    if (event != NULL) {
-                        process_sse_event(data, event);
-                        sse_event_free(event);
-                    } else {
-                        mcp_log_error("Failed to create SSE event");
-                    }
-
-                    // Reset event state for next event
-                    cleanup_event_state(&event_type, &event_id, &event_data);
-                }
-
-                // Get next line
-                line = strtok(NULL, "\r\n");
+            if (!process_sse_bytes(data, &reader, buffer, bytes_read)) {
+                break;
             }
         }
 
@@ -752,11 +781,11 @@ void* http_client_event_thread_func(void* arg) {
         mcp_mutex_unlock(data->mutex);
 
         // Clean up event parsing state
-        cleanup_event_state(&event_type, &event_id, &event_data);
+        cleanup_event_state(&reader.event_type, &reader.event_id, &reader.event_data);
+        free(reader.line);
 
         // If we're still running, retry connection after delay
         if (data->running) {
-            static int reconnect_attempts = 0;
             reconnect_attempts++;
 
             // Log with reconnect attempt count for better diagnostics
@@ -767,6 +796,7 @@ void* http_client_event_thread_func(void* arg) {
         }
     }
 
+    mcp_arena_destroy_current_thread();
     mcp_log_info("HTTP client event thread stopped");
     return NULL;
 }
-- 
2.43.0


From 165b404662b51f7f6d44be3cfd2569d72acc9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:39 +0000
Subject: [PATCH 097/120] fix: honour the Last-Event-ID header of event streams

The HTTP client and browsers name the last event they received in this header; so far only the lastEventId query parameter was read.
---
 src/transport/mcp_http_server_handlers.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index 29e54e1..be82bfa 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -28,6 +28,7 @@
 
 // URL query parameters
 #define URL_PARAM_LAST_EVENT_ID "lastEventId="
+#define HTTP_HEADER_LAST_EVENT_ID "last-event-id:"
 #define URL_PARAM_FILTER "filter="
 #define URL_PARAM_SESSION_ID "session_id="
 
@@ -423,6 +424,15 @@ void handle_sse_request(struct lws* wsi, http_transport_data_t* data) {
 
     session->last_event_id = 0;
 
+    // A reconnecting client names the last event it received in this header
+    char last_event_id_header[64] = {0};
+    if (lws_hdr_custom_copy(wsi, last_event_id_header, sizeof(last_event_id_header),
+                            HTTP_HEADER_LAST_EVENT_ID,
+                            (int)strlen(HTTP_HEADER_LAST_EVENT_ID)) > 0) {
+        session->last_event_id = atoi(last_event_id_header);
+        mcp_log_info("SSE client reconnected with Last-Event-ID: %d", session->last_event_id);
+    }
+
     // Get query string
     char query[HTTP_QUERY_BUFFER_SIZE] = {0};
     int query_len = lws_hdr_total_length(wsi, WSI_TOKEN_HTTP_URI_ARGS);
-- 
2.43.0


From 8a0d4836fcbdd1098be22861812c516a814aa790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:27 +0000
Subject: [PATCH 098/120] fix: run the destructor of objects freed through the
 thread cache

A thread whose object cache is in use may give objects back through either interface. Only the flag of the object cache decides whether it can take them.
---
 src/common/mcp_thread_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_thread_local.c b/src/common/mcp_thread_local.c
index bfcb3be..d247e59 100644
--- a/src/common/mcp_thread_local.c
+++ b/src/common/mcp_thread_local.c
@@ -447,7 +447,7 @@ void mcp_thread_cache_free_object(mcp_object_cache_type_t type, void* ptr, size_
     }
 
     // Fast path for common case
-    if (tls_initialized && mcp_object_cache_system_is_initialized()) {
+    if (mcp_object_cache_system_is_initialized()) {
         mcp_object_cache_free(type, ptr, size);
         // Update statistics
         tls_stats.cache_frees++;
-- 
2.43.0


From 4339adb33a717a45412153b9ffe4cd84090f06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:27 +0000
Subject: [PATCH 099/120] fix: keep a reconnect delay of zero at zero

---
 src/transport/mcp_tcp_client_reconnect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_tcp_client_reconnect.c b/src/transport/mcp_tcp_client_reconnect.c
index 52c404a..b6a6ff0 100644
--- a/src/transport/mcp_tcp_client_reconnect.c
+++ b/src/transport/mcp_tcp_client_reconnect.c
@@ -172,7 +172,9 @@ static uint32_t calculate_reconnect_delay(const mcp_reconnect_config_t* config,
 
     // Calculate base delay with exponential backoff
     // initial_delay * (backoff_factor ^ (attempt - 1))
-    float base_delay = (float)config->initial_reconnect_delay_ms *
+    // (zero stays zero, also when the power overflows to infinity)
+    float base_delay = config->initial_reconnect_delay_ms == 0 ? 0.0f :
+                       (float)config->initial_reconnect_delay_ms *
                        powf(config->backoff_factor, (float)(attempt - 1));
 
     // Cap at maximum delay
-- 
2.43.0


From 442339349c6bbb00d6d081c49fc2a54e53c15e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 100/120] fix: hand over events longer than a megabyte whole

The event is already in memory in full, so cutting the length passed to the
message callback only turns a complete JSON message into an unusable one.
---
 src/transport/mcp_http_client_sse.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index 3486389..d2cfd49 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -314,12 +314,6 @@ void process_sse_event(http_client_transport_data_t* data, const sse_event_t* ev
     // Process event data if provided
     if (event->data != NULL) {
         size_t data_length = strlen(event->data);
-        // Check if data is too large (arbitrary limit to prevent processing extremely large events)
-        if (data_length > 1024 * 1024) { // 1MB limit
-            mcp_log_warn("SSE event data too large (%zu bytes), truncating to 1MB", data_length);
-            data_length = 1024 * 1024; // Limit to 1MB
-        }
-
         // Log detailed event information
         mcp_log_debug("Received SSE event data: type=%s, id=%s, data_length=%zu",
                      event_type, event_id, data_length);
-- 
2.43.0


From 900f6b54950e01cd1c0bd8631fa3bd2a34658851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 101/120] fix: do not read the stdio transport's data after
 freeing it

---
 src/transport/mcp_stdio_transport.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 2b09b4a..4516c17 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -786,11 +786,12 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
     }
 
     // Free the specific stdio data using the stored deallocation function
-    data->free_func(transport->transport_data);
+    void (*free_func)(void*) = data->free_func;
+    free_func(transport->transport_data);
     transport->transport_data = NULL;
 
     // Free the main transport struct using the stored deallocation function
-    data->free_func(transport);
+    free_func(transport);
 
     mcp_log_debug("Transport destroyed.");
 }
-- 
2.43.0


From 6991601fc6613af2696b260b90bc6d00d1e3c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 102/120] fix: join the stdio read thread also after the input
 has ended

---
 src/transport/mcp_stdio_transport.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 4516c17..b7159d0 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -40,6 +40,7 @@ typedef struct {
     bool running;                       /**< Flag indicating if the transport (read thread) is active. */
     mcp_transport_t* transport_handle;  /**< Pointer back to the generic transport handle containing callbacks. */
     mcp_thread_t read_thread;           /**< Handle for the background stdin reading thread (cross-platform). */
+    bool thread_started;                /**< Flag indicating that the read thread was created and not joined yet. */
     void* (*alloc_func)(size_t);        /**< Function pointer for memory allocation. */
     void (*free_func)(void*);           /**< Function pointer for memory deallocation. */
     mcp_mutex_t* running_mutex;         /**< Mutex to protect access to the running flag. */
@@ -559,11 +560,18 @@ static int stdio_transport_start(
     }
 
     // Set running flag before creating thread
+    bool join_previous = data->thread_started;
     data->running = true;
 
     // Unlock the mutex
     mcp_mutex_unlock(data->running_mutex);
 
+    // A previous read thread that ended by itself (EOF) is still to be joined
+    if (join_previous) {
+        mcp_thread_join(data->read_thread, NULL);
+        data->thread_started = false;
+    }
+
     // Create the read thread using cross-platform thread API
     int thread_result = mcp_thread_create(&data->read_thread, stdio_read_thread_func, data);
     if (thread_result != 0) {
@@ -571,6 +579,7 @@ static int stdio_transport_start(
         data->running = false;
         return -1;
     }
+    data->thread_started = true;
 
     mcp_log_info("Read thread started successfully.");
     return 0;
@@ -593,8 +602,8 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
     // Lock the mutex to safely check and update the running flag
     mcp_mutex_lock(data->running_mutex);
 
-    // Check if already stopped
-    if (!data->running) {
+    // Check if already stopped (a thread that ended by itself still has to be joined)
+    if (!data->thread_started) {
         mcp_mutex_unlock(data->running_mutex);
         mcp_log_debug("Transport already stopped, ignoring stop request.");
         return 0;
@@ -602,6 +611,7 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
 
     // Set running flag to false to signal thread to exit
     data->running = false;
+    data->thread_started = false;
 
     // Unlock the mutex
     mcp_mutex_unlock(data->running_mutex);
@@ -764,11 +774,11 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
     // Lock the mutex to safely check the running flag
     if (data->running_mutex != NULL) {
         mcp_mutex_lock(data->running_mutex);
-        is_running = data->running;
+        is_running = data->thread_started;
         mcp_mutex_unlock(data->running_mutex);
     } else {
         // If mutex is NULL (shouldn't happen), use the flag directly
-        is_running = data->running;
+        is_running = data->thread_started;
     }
 
     if (is_running) {
-- 
2.43.0


From dd0ff961c1ed97e95e0d1a856d1ed9f188086c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 103/120] fix: see messages that arrived together with an
 earlier one

select() only knows about the descriptor. Bytes that a previous fread() took
into the buffer of stdin were not seen until more input arrived.
---
 src/transport/mcp_stdio_transport.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index b7159d0..829914f 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -192,7 +192,6 @@ static int read_length_prefixed_message(char** data_out, size_t* size_out,
 static int stdio_init_streams(void) {
     // Use static buffers to avoid memory leaks
     // These buffers will exist for the lifetime of the program
-    static char stdin_buffer[STDIO_BUFFER_SIZE];
     static char stdout_buffer[STDIO_BUFFER_SIZE];
 
     // Set binary mode for stdin and stdout
@@ -260,7 +259,8 @@ static int stdio_init_streams(void) {
 #endif
 
     // Set optimal buffering for stdin and stdout
-    if (setvbuf(stdin, stdin_buffer, _IOFBF, STDIO_BUFFER_SIZE) != 0) {
+    // stdin is not buffered: waiting for the descriptor would not see messages that are in the buffer already
+    if (setvbuf(stdin, NULL, _IONBF, 0) != 0) {
         mcp_log_error("Failed to set stdin buffer: %s", get_error_string(errno));
         return -1;
     }
@@ -270,7 +270,7 @@ static int stdio_init_streams(void) {
         return -1;
     }
 
-    mcp_log_debug("Optimized stdin and stdout buffering (buffer size: %d KB)", STDIO_BUFFER_SIZE / 1024);
+    mcp_log_debug("Optimized stdout buffering (buffer size: %d KB)", STDIO_BUFFER_SIZE / 1024);
     return 0;
 }
 
-- 
2.43.0


From e2c6a55a6041e553da8f83c7afbc623aa6a4b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 104/120] fix: let the stdio transport be stopped while the
 input is idle

The read thread was blocked in fread() and stop joined it. On POSIX systems it
now waits for input with a timeout, as receive does, and looks at the running
flag in between.
---
 src/transport/mcp_stdio_transport.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 829914f..1d7af16 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -27,6 +27,7 @@
 #endif
 
 #define MAX_MCP_MESSAGE_SIZE (1024 * 1024) // Maximum message size (1MB)
+#define STDIO_POLL_INTERVAL_MS 100         // How often the read thread looks at the running flag
 #define STDIO_BUFFER_SIZE (64 * 1024)      // 64KB buffer for stdin/stdout
 
 /**
@@ -450,6 +451,16 @@ static void* stdio_read_thread_func(void* arg) {
         mcp_mutex_lock(data->running_mutex);
         is_running = data->running;
         mcp_mutex_unlock(data->running_mutex);
+#ifndef _WIN32
+        if (!is_running) {
+            break;
+        }
+
+        // Look at the running flag again from time to time while nothing arrives
+        if (wait_for_stdin_data(STDIO_POLL_INTERVAL_MS) == 0) {
+            continue;
+        }
+#endif
         // Read a length-prefixed message using the helper function
         size_t message_length = 0;
         if (read_length_prefixed_message(&message_buf, &message_length, data->alloc_func, data->free_func) != 0) {
-- 
2.43.0


From 15331d56ada684e979263bf552516293940ee436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 105/120] fix: keep the frames of different threads apart on
 stdout

send and sendv wrote the prefix and the parts of a frame without a lock.
---
 src/transport/mcp_stdio_transport.c | 58 +++++++++++++----------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 1d7af16..8cc0891 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -45,6 +45,7 @@ typedef struct {
     void* (*alloc_func)(size_t);        /**< Function pointer for memory allocation. */
     void (*free_func)(void*);           /**< Function pointer for memory deallocation. */
     mcp_mutex_t* running_mutex;         /**< Mutex to protect access to the running flag. */
+    mcp_mutex_t* send_mutex;            /**< Mutex that keeps the parts of a frame together on stdout. */
 
     // Padding to ensure the structure fills a complete cache line
     // This helps prevent false sharing in multi-threaded environments
@@ -651,42 +652,15 @@ static int stdio_transport_stop(mcp_transport_t* transport) {
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_send(mcp_transport_t* transport, const void* payload_data, size_t payload_size) {
-    (void)transport;
-
     if (payload_data == NULL || payload_size == 0) {
         mcp_log_error("Invalid payload in send function.");
         return -1;
     }
 
-    // Sanity check payload size
-    if (payload_size > MAX_MCP_MESSAGE_SIZE) {
-        mcp_log_error("Payload size %zu exceeds maximum allowed size (%d).",
-                     payload_size, MAX_MCP_MESSAGE_SIZE);
-        return -1;
-    }
-
-    // 1. Send 4-byte length prefix (network byte order)
-    uint32_t net_len = htonl((uint32_t)payload_size);
-    if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
-        mcp_log_error("Failed to write length prefix to stdout: %s",
-                     get_error_string(errno));
-        return -1;
-    }
-
-    // 2. Send the actual payload data
-    if (fwrite(payload_data, 1, payload_size, stdout) != payload_size) {
-        mcp_log_error("Failed to write payload data to stdout: %s",
-                     get_error_string(errno));
-        return -1;
-    }
-
-    // 3. Ensure the output is flushed immediately
-    if (fflush(stdout) != 0) {
-        mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
-        return -1;
-    }
-
-    return 0;
+    mcp_buffer_t buffer;
+    buffer.data = payload_data;
+    buffer.size = payload_size;
+    return stdio_transport_sendv(transport, &buffer, 1);
 }
 
 /**
@@ -703,7 +677,11 @@ static int stdio_transport_send(mcp_transport_t* transport, const void* payload_
  * @return 0 on success, -1 on error (e.g., write error, flush error).
  */
 static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t* buffers, size_t buffer_count) {
-    (void)transport;
+    if (transport == NULL || transport->transport_data == NULL) {
+        mcp_log_error("Invalid transport handle in sendv function.");
+        return -1;
+    }
+    mcp_stdio_transport_data_t* data = (mcp_stdio_transport_data_t*)transport->transport_data;
 
     if (buffers == NULL || buffer_count == 0) {
         mcp_log_error("Invalid buffers in sendv function.");
@@ -734,11 +712,15 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         return -1;
     }
 
+    // Frames of different threads must not mix
+    mcp_mutex_lock(data->send_mutex);
+
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)total_size);
     if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
@@ -752,6 +734,7 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         if (fwrite(buffers[i].data, 1, buffers[i].size, stdout) != buffers[i].size) {
             mcp_log_error("Failed to write buffer %zu to stdout: %s",
                          i, get_error_string(errno));
+            mcp_mutex_unlock(data->send_mutex);
             return -1;
         }
     }
@@ -759,9 +742,11 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
     // 3. Ensure the output is flushed immediately
     if (fflush(stdout) != 0) {
         mcp_log_error("Failed to flush stdout: %s", get_error_string(errno));
+        mcp_mutex_unlock(data->send_mutex);
         return -1;
     }
 
+    mcp_mutex_unlock(data->send_mutex);
     return 0;
 }
 
@@ -805,6 +790,10 @@ static void stdio_transport_destroy(mcp_transport_t* transport) {
         mcp_mutex_destroy(data->running_mutex);
         data->running_mutex = NULL;
     }
+    if (data->send_mutex != NULL) {
+        mcp_mutex_destroy(data->send_mutex);
+        data->send_mutex = NULL;
+    }
 
     // Free the specific stdio data using the stored deallocation function
     void (*free_func)(void*) = data->free_func;
@@ -867,8 +856,11 @@ mcp_transport_t* mcp_transport_stdio_create(void) {
 
     // Create mutex for thread safety
     stdio_data->running_mutex = mcp_mutex_create();
-    if (stdio_data->running_mutex == NULL) {
+    stdio_data->send_mutex = mcp_mutex_create();
+    if (stdio_data->running_mutex == NULL || stdio_data->send_mutex == NULL) {
         mcp_log_error("Failed to create mutex for transport.");
+        if (stdio_data->running_mutex) mcp_mutex_destroy(stdio_data->running_mutex);
+        if (stdio_data->send_mutex) mcp_mutex_destroy(stdio_data->send_mutex);
         free_func(stdio_data);
         free_func(transport);
         return NULL;
-- 
2.43.0


From e283dd43a6c8bd10f99fc461d49fec1939e2359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:33 +0000
Subject: [PATCH 106/120] fix: do not frame a client's messages twice on stdout

The MCP client hands over a length prefix and the message, as it does for the
other transports, and the stdio transport put a second prefix in front.
---
 src/transport/mcp_stdio_transport.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 8cc0891..3fb58f1 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -712,12 +712,20 @@ static int stdio_transport_sendv(mcp_transport_t* transport, const mcp_buffer_t*
         return -1;
     }
 
+    // The MCP client hands over messages that already start with their length prefix
+    bool has_prefix = false;
+    if (buffer_count > 1 && buffers[0].data != NULL && buffers[0].size == sizeof(uint32_t)) {
+        uint32_t prefix;
+        memcpy(&prefix, buffers[0].data, sizeof(prefix));
+        has_prefix = ntohl(prefix) == total_size - sizeof(uint32_t);
+    }
+
     // Frames of different threads must not mix
     mcp_mutex_lock(data->send_mutex);
 
     // 1. Send 4-byte length prefix (network byte order)
     uint32_t net_len = htonl((uint32_t)total_size);
-    if (fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
+    if (!has_prefix && fwrite(&net_len, 1, sizeof(net_len), stdout) != sizeof(net_len)) {
         mcp_log_error("Failed to write length prefix to stdout: %s",
                      get_error_string(errno));
         mcp_mutex_unlock(data->send_mutex);
-- 
2.43.0


From 7d6613bd9e69da1be1f9bed8fce985fa818df997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:34 +0000
Subject: [PATCH 107/120] fix: give the stdio read thread an arena for the
 callbacks

JSON is parsed with the calling thread's arena. The receiver threads of the
other transports create one, the read thread of the stdio transport did not.
---
 src/transport/mcp_stdio_transport.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index 3fb58f1..a306a7c 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -5,6 +5,7 @@
 #include "mcp_memory_pool.h"
 #include "mcp_thread_cache.h"
 #include "mcp_cache_aligned.h"
+#include "mcp_thread_local.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -28,6 +29,7 @@
 
 #define MAX_MCP_MESSAGE_SIZE (1024 * 1024) // Maximum message size (1MB)
 #define STDIO_POLL_INTERVAL_MS 100         // How often the read thread looks at the running flag
+#define STDIO_ARENA_SIZE (1024 * 1024)     // Size of the read thread's arena
 #define STDIO_BUFFER_SIZE (64 * 1024)      // 64KB buffer for stdin/stdout
 
 /**
@@ -445,6 +447,11 @@ static void* stdio_read_thread_func(void* arg) {
     char* message_buf = NULL;
     mcp_log_debug("Read thread started (using length prefix framing).");
 
+    // The callbacks parse JSON in this thread
+    if (mcp_arena_init_current_thread(STDIO_ARENA_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena for read thread.");
+    }
+
     // Loop reading messages as long as the transport is running
     bool is_running = true;
     while (is_running) {
@@ -529,6 +536,8 @@ static void* stdio_read_thread_func(void* arg) {
         message_buf = NULL;
     }
 
+    mcp_arena_destroy_current_thread();
+
     mcp_log_info("Read thread exiting.");
     return NULL;
 }
-- 
2.43.0


From 62da3a90f20afc5c241ccd3ed2664b380c329fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:37 +0000
Subject: [PATCH 108/120] fix: give back the memory parsed for each message on
 a client's receive thread

---
 src/transport/mcp_http_client_sse.c     | 3 +++
 src/transport/mcp_stdio_transport.c     | 3 +++
 src/transport/mcp_tcp_client_receiver.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/transport/mcp_http_client_sse.c b/src/transport/mcp_http_client_sse.c
index d2cfd49..4e5c5db 100644
--- a/src/transport/mcp_http_client_sse.c
+++ b/src/transport/mcp_http_client_sse.c
@@ -344,6 +344,9 @@ void process_sse_event(http_client_transport_data_t* data, const sse_event_t* ev
 
             // Free result if returned
             safe_free_string(&result);
+
+            // The callback is done with whatever it parsed into this thread's arena
+            mcp_arena_reset_current_thread();
         } else {
             mcp_log_warn("No message callback registered for SSE events");
         }
diff --git a/src/transport/mcp_stdio_transport.c b/src/transport/mcp_stdio_transport.c
index a306a7c..df5100a 100644
--- a/src/transport/mcp_stdio_transport.c
+++ b/src/transport/mcp_stdio_transport.c
@@ -528,6 +528,9 @@ static void* stdio_read_thread_func(void* arg) {
         // 7. Free the message buffer for the next read
         data->free_func(message_buf);
         message_buf = NULL;
+
+        // The callback is done with whatever it parsed into this thread's arena
+        mcp_arena_reset_current_thread();
     } // End while(data->running)
 
     // Final safety check - ensure message_buf is freed if we somehow exit the loop with it allocated
diff --git a/src/transport/mcp_tcp_client_receiver.c b/src/transport/mcp_tcp_client_receiver.c
index 6aef968..1224c5c 100644
--- a/src/transport/mcp_tcp_client_receiver.c
+++ b/src/transport/mcp_tcp_client_receiver.c
@@ -314,6 +314,9 @@ void* tcp_client_receive_thread_func(void* arg) {
         free(message_buf);
         message_buf = NULL;
 
+        // The callback is done with whatever it parsed into this thread's arena
+        mcp_arena_reset_current_thread();
+
         // Reset error_signaled flag for next iteration
         error_signaled = false;
     }
-- 
2.43.0


From c52ab5e04fc1ba35fd6bfc36f0cef0933e86874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:37 +0000
Subject: [PATCH 109/120] fix: enforce the request limit the server was
 configured with

The settings use_advanced_rate_limiter and enable_token_bucket were or-ed with true, so a configured rate_limit_window_seconds and rate_limit_max_requests never had any effect.  Honour them as documented, off unless asked for.
---
 src/server/mcp_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index e5104a8..6291436 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -220,8 +220,8 @@ mcp_server_t* mcp_server_create(const mcp_server_config_t* config, const mcp_ser
     server->config.rate_limit_max_requests = config->rate_limit_max_requests;
 
     // Advanced rate limiter settings
-    server->config.use_advanced_rate_limiter = config->use_advanced_rate_limiter || true; // Default to true
-    server->config.enable_token_bucket = config->enable_token_bucket || true; // Default to true
+    server->config.use_advanced_rate_limiter = config->use_advanced_rate_limiter;
+    server->config.enable_token_bucket = config->enable_token_bucket;
     server->config.tokens_per_second = config->tokens_per_second > 0 ? config->tokens_per_second : 5.0;
     server->config.max_tokens = config->max_tokens > 0 ? config->max_tokens : 20;
 
-- 
2.43.0


From 67f07a101e1bbfebbc049adafe277ad0a27fcb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:37 +0000
Subject: [PATCH 110/120] fix: give up on a pooled TCP exchange after its
 request timeout

The timeout is documented to cover the complete request-response cycle.  Wait for the response to arrive no longer than that; the connection is then released as invalid, so that a late response cannot reach another request.
---
 src/transport/mcp_tcp_pool_transport.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_tcp_pool_transport.c b/src/transport/mcp_tcp_pool_transport.c
index f173600..a487bde 100644
--- a/src/transport/mcp_tcp_pool_transport.c
+++ b/src/transport/mcp_tcp_pool_transport.c
@@ -309,6 +309,26 @@ static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t so
     }
 }
 
+/**
+ * @brief Receives the response to a request, waiting no longer than the request timeout for it to arrive.
+ *
+ * @param data Pointer to the TCP pool transport data
+ * @param sock The socket handle
+ * @param[out] response The received response
+ * @param[out] response_len The length of the response
+ * @return 0 on success, non-zero on error or timeout
+ */
+static int tcp_pool_receive_response(mcp_tcp_pool_transport_data_t* data, socket_handle_t sock,
+                                     char** response, uint32_t* response_len) {
+    if (data->request_timeout_ms > 0 &&
+        mcp_socket_wait_readable(sock, data->request_timeout_ms, NULL) != 1) {
+        mcp_log_error("No response within %d ms", data->request_timeout_ms);
+        return -1;
+    }
+
+    return mcp_framing_recv_message(sock, response, response_len, MAX_MESSAGE_SIZE, NULL);
+}
+
 /**
  * @brief Sends data over the TCP connection and waits for a response.
  *
@@ -372,7 +392,7 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
     uint32_t response_len = 0;
 
     mcp_log_debug("Waiting for response");
-    result = mcp_framing_recv_message(sock, &response, &response_len, MAX_MESSAGE_SIZE, NULL);
+    result = tcp_pool_receive_response(data, sock, &response, &response_len);
 
     // Process the response
     if (result == 0 && response != NULL) {
@@ -492,7 +512,7 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
     uint32_t response_len = 0;
 
     mcp_log_debug("Waiting for response after vectored send");
-    result = mcp_framing_recv_message(sock, &response, &response_len, MAX_MESSAGE_SIZE, NULL);
+    result = tcp_pool_receive_response(data, sock, &response, &response_len);
 
     // Process the response
     if (result == 0 && response != NULL) {
-- 
2.43.0


From 5b62e91ecdfe9eaa17cc5c82f4bf51725cd48bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:37 +0000
Subject: [PATCH 111/120] fix: keep one failed exchange of the pooled TCP
 client from failing the others

The error callback reports the loss of the whole transport.  A broken connection of the pool only concerns the request that used it, which learns of it from the return value.
---
 src/transport/mcp_tcp_pool_transport.c | 27 ++++++++------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/transport/mcp_tcp_pool_transport.c b/src/transport/mcp_tcp_pool_transport.c
index a487bde..1fa9cbd 100644
--- a/src/transport/mcp_tcp_pool_transport.c
+++ b/src/transport/mcp_tcp_pool_transport.c
@@ -291,9 +291,8 @@ static int tcp_pool_process_response(mcp_transport_t* transport, socket_handle_t
  *
  * @param transport The transport handle
  * @param sock The socket handle
- * @param error_code The error code
  */
-static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t sock, int error_code) {
+static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t sock) {
     if (!transport || !transport->transport_data || sock == INVALID_SOCKET_HANDLE) {
         return;
     }
@@ -301,12 +300,10 @@ static void tcp_pool_handle_error(mcp_transport_t* transport, socket_handle_t so
     mcp_tcp_pool_transport_data_t* data = (mcp_tcp_pool_transport_data_t*)transport->transport_data;
 
     // Release connection back to pool as invalid
+    // The error callback is not called: it reports the loss of the whole transport and fails
+    // every outstanding request, but requests on the pool's other connections are unaffected.
+    // The failed request learns of the error from the return value.
     mcp_connection_pool_release(data->connection_pool, sock, false);
-
-    // Call error callback if set
-    if (transport->error_callback) {
-        transport->error_callback(transport->callback_user_data, error_code);
-    }
 }
 
 /**
@@ -368,10 +365,6 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
-        int error_code = mcp_socket_get_lasterror();
-        if (transport->error_callback) {
-            transport->error_callback(transport->callback_user_data, error_code);
-        }
         return -1;
     }
 
@@ -383,7 +376,7 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
     if (result != 0) {
         int error_code = mcp_socket_get_lasterror();
         mcp_log_error("Failed to send data (result: %d, error: %d)", result, error_code);
-        tcp_pool_handle_error(transport, sock, error_code);
+        tcp_pool_handle_error(transport, sock);
         return -1;
     }
 
@@ -409,7 +402,7 @@ static int tcp_pool_transport_send(mcp_transport_t* transport, const void* data_
             free(response);
         }
 
-        tcp_pool_handle_error(transport, sock, error_code);
+        tcp_pool_handle_error(transport, sock);
         return -1;
     }
 }
@@ -465,10 +458,6 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
     // Get a connection from the pool
     socket_handle_t sock = tcp_pool_get_connection(data);
     if (sock == INVALID_SOCKET_HANDLE) {
-        int error_code = mcp_socket_get_lasterror();
-        if (transport->error_callback) {
-            transport->error_callback(transport->callback_user_data, error_code);
-        }
         return -1;
     }
 
@@ -503,7 +492,7 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
     if (result != 0) {
         int error_code = mcp_socket_get_lasterror();
         mcp_log_error("Failed to send vectored data (result: %d, error: %d)", result, error_code);
-        tcp_pool_handle_error(transport, sock, error_code);
+        tcp_pool_handle_error(transport, sock);
         return -1;
     }
 
@@ -530,7 +519,7 @@ static int tcp_pool_transport_sendv(mcp_transport_t* transport, const mcp_buffer
             free(response);
         }
 
-        tcp_pool_handle_error(transport, sock, error_code);
+        tcp_pool_handle_error(transport, sock);
         return -1;
     }
 }
-- 
2.43.0


From f871a3c2aaecf997fae8024824e05e55b9980bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:57:35 +0000
Subject: [PATCH 112/120] fix: keep waiting for a pooled connection when a
 signal arrives

poll() returning EINTR was taken for a failed connection. Wait for the rest of the time instead.
---
 src/connection_pool/mcp_connection_pool_socket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connection_pool/mcp_connection_pool_socket.c b/src/connection_pool/mcp_connection_pool_socket.c
index 21a6c20..5f7099e 100644
--- a/src/connection_pool/mcp_connection_pool_socket.c
+++ b/src/connection_pool/mcp_connection_pool_socket.c
@@ -100,7 +100,13 @@ static bool wait_for_connection(socket_handle_t sock, int timeout_ms) {
     pfd.events = POLLOUT;
     pfd.revents = 0;
 
+    // A signal does not end the wait, and does not prolong it either
+    long long deadline_ms = mcp_get_time_ms() + timeout_ms;
     int result = poll(&pfd, 1, timeout_ms);
+    while (result < 0 && errno == EINTR) {
+        long long remaining_ms = deadline_ms - mcp_get_time_ms();
+        result = poll(&pfd, 1, remaining_ms > 0 ? (int)remaining_ms : 0);
+    }
 #endif
 
     if (result == 0) {
-- 
2.43.0


From f0018be2a5f4c604c26e15ecb9111940d1e55a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:50 +0000
Subject: [PATCH 113/120] fix: refuse a static file path that does not fit
 instead of cutting it short

---
 src/transport/mcp_http_server_callbacks.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 55f3cc5..e1e2a88 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1167,10 +1167,15 @@ static int handle_http_static_file_request(struct lws* wsi, http_transport_data_
     }
     file_path[uri_len < sizeof(file_path) - 1 ? uri_len : sizeof(file_path) - 1] = '\0';
 
-    snprintf(path, sizeof(path), "%s%s", data->config.doc_root, file_path);
+    int path_len = snprintf(path, sizeof(path), "%s%s", data->config.doc_root, file_path);
 #else
-    snprintf(path, sizeof(path), "%s%s", data->config.doc_root, uri);
+    int path_len = snprintf(path, sizeof(path), "%s%s", data->config.doc_root, uri);
 #endif
+    // A path cut short would name another file
+    if (path_len < 0 || (size_t)path_len >= sizeof(path)) {
+        mcp_log_error("File path too long for URI: %s", uri);
+        return handle_http_404(wsi, uri);
+    }
     mcp_log_info("Serving file from path: %s", path);
 
     // Check if file exists
-- 
2.43.0


From 3dde5c7b243a15ae894c61f5d36dbcdfe6201e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:50 +0000
Subject: [PATCH 114/120] fix: answer 404 for a missing static file

With a document root configured the handler returned -1, so the connection was closed without any response.
---
 src/transport/mcp_http_server_callbacks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index e1e2a88..be88027 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -1314,8 +1314,8 @@ static int handle_http_static_file_request(struct lws* wsi, http_transport_data_
         mcp_log_error("File does not exist: %s", path);
     }
 
-    // File not found, return -1 to indicate failure
-    return -1;
+    // File not found
+    return handle_http_404(wsi, uri);
 }
 
 // Handle 404 error
-- 
2.43.0


From 0d2a6ccf1dca2f5ed58caf8975b4ab533713b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 115/120] fix: initialise the arena of the HTTP event thread

Requests built from a query string need the thread-local arena, which only exists in this thread once the server has handled a message in it.
---
 src/transport/mcp_http_server_callbacks.c | 2 ++
 src/transport/mcp_http_transport.c        | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index be88027..89b6f46 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -3,6 +3,7 @@
 #include "mcp_json.h"
 #include "mcp_log.h"
 #include "mcp_string_utils.h"
+#include "mcp_thread_local.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -987,6 +988,7 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
 
         // Build JSON-RPC request from query parameters
         char* request_json = build_jsonrpc_request_from_query(query);
+        mcp_arena_reset_current_thread();
         if (!request_json) {
             mcp_log_error("Failed to build JSON-RPC request from query parameters");
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Invalid tool call parameters");
diff --git a/src/transport/mcp_http_transport.c b/src/transport/mcp_http_transport.c
index a79fff2..996bab5 100644
--- a/src/transport/mcp_http_transport.c
+++ b/src/transport/mcp_http_transport.c
@@ -5,6 +5,8 @@
 #include "mcp_sync.h"
 #include "mcp_thread_pool.h"
 #include "mcp_string_utils.h"
+#include "mcp_arena.h"
+#include "mcp_thread_local.h"
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -645,6 +647,11 @@ void* http_event_thread_func(void* arg) {
         return NULL;
     }
 
+    // The requests made from query strings are built in this thread's arena
+    if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE) != 0) {
+        mcp_log_error("Failed to initialize thread-local arena in HTTP event thread");
+    }
+
     mcp_log_info("HTTP event thread started");
 
     // Run event loop until data->running is set to false
@@ -660,6 +667,8 @@ void* http_event_thread_func(void* arg) {
         send_sse_heartbeat(data);
     }
 
+    mcp_arena_destroy_current_thread();
+
     mcp_log_info("HTTP event thread exited");
     return NULL;
 }
-- 
2.43.0


From f9ce5a86c7931d20b36f057a2f64eb613e931759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 116/120] fix: take the parts of a GET tool call from the query
 as libwebsockets decoded them

The query is already split and decoded. It was decoded and split a second time, and the tool name was searched for as text anywhere in the query.
---
 src/transport/mcp_http_server_callbacks.c | 225 +++-------------------
 1 file changed, 32 insertions(+), 193 deletions(-)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index 89b6f46..f04aa33 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -49,9 +49,7 @@ static int send_http_error_response(struct lws* wsi, int status_code, const char
 static int send_http_json_response(struct lws* wsi, int status_code, const char* json_body);
 
 static char* extract_session_id_from_query(const char* query);
-static char* url_decode(const char* src);
-static char* extract_query_param(const char* query, const char* param_name);
-static char* build_jsonrpc_request_from_query(const char* query);
+static char* build_jsonrpc_request_from_query(struct lws* wsi);
 static const char* get_jsonrpc_error_message(int error_code);
 static int create_jsonrpc_error_response(int error_code, const char* error_message, const char* id, char* buffer, size_t buffer_size);
 
@@ -455,112 +453,6 @@ static int send_http_json_response(struct lws* wsi, int status_code, const char*
     return send_http_response(wsi, status_code, HTTP_CONTENT_TYPE_JSON, json_body, strlen(json_body));
 }
 
-/**
- * @brief URL decode a string
- *
- * This function decodes URL-encoded strings, handling %xx escapes and + as space.
- *
- * @param src The URL-encoded string to decode
- * @return char* The decoded string (caller must free) or NULL on failure
- */
-static char* url_decode(const char* src) {
-    if (src == NULL) {
-        return NULL;
-    }
-
-    // Allocate memory for the decoded string (will be at most as long as the source)
-    size_t src_len = strlen(src);
-    char* decoded = (char*)malloc(src_len + 1);
-    if (decoded == NULL) {
-        mcp_log_error("Failed to allocate memory for URL decoding");
-        return NULL;
-    }
-
-    // Decode the string
-    const char* src_ptr = src;
-    char* dst_ptr = decoded;
-
-    while (*src_ptr) {
-        if (*src_ptr == '%' && src_ptr[1] && src_ptr[2]) {
-            // Handle %xx escape
-            char hex[3] = {src_ptr[1], src_ptr[2], 0};
-            *dst_ptr = (char)strtol(hex, NULL, 16);
-            src_ptr += 3;
-        } else if (*src_ptr == '+') {
-            // Handle + as space
-            *dst_ptr = ' ';
-            src_ptr++;
-        } else {
-            // Copy character as-is
-            *dst_ptr = *src_ptr;
-            src_ptr++;
-        }
-        dst_ptr++;
-    }
-
-    // Null-terminate the decoded string
-    *dst_ptr = '\0';
-
-    return decoded;
-}
-
-/**
- * @brief Extract a parameter value from a query string
- *
- * This function extracts the value of a parameter from a query string.
- *
- * @param query The query string to parse
- * @param param_name The name of the parameter to extract
- * @return char* The parameter value (caller must free) or NULL if not found
- */
-static char* extract_query_param(const char* query, const char* param_name) {
-    if (query == NULL || param_name == NULL || *query == '\0' || *param_name == '\0') {
-        return NULL;
-    }
-
-    // Build the parameter prefix (param_name=)
-    size_t prefix_len = strlen(param_name);
-    char* prefix = (char*)malloc(prefix_len + 2); // +2 for '=' and '\0'
-    if (prefix == NULL) {
-        mcp_log_error("Failed to allocate memory for parameter prefix");
-        return NULL;
-    }
-
-    sprintf(prefix, "%s=", param_name);
-
-    // Find the parameter in the query string
-    const char* param_start = strstr(query, prefix);
-    free(prefix); // Free the prefix buffer
-
-    if (param_start == NULL) {
-        return NULL; // Parameter not found
-    }
-
-    // Skip the parameter name and '='
-    param_start += prefix_len + 1;
-
-    // Find the end of the parameter value
-    const char* param_end = strchr(param_start, '&');
-
-    // Extract the parameter value
-    if (param_end != NULL) {
-        // Parameter is not the last one in the query string
-        size_t value_len = param_end - param_start;
-        char* value = (char*)malloc(value_len + 1);
-        if (value == NULL) {
-            mcp_log_error("Failed to allocate memory for parameter value");
-            return NULL;
-        }
-
-        strncpy(value, param_start, value_len);
-        value[value_len] = '\0';
-        return value;
-    } else {
-        // Parameter is the last one in the query string
-        return mcp_strdup(param_start);
-    }
-}
-
 /**
  * @brief Build a JSON-RPC request from query parameters
  *
@@ -572,98 +464,54 @@ static char* extract_query_param(const char* query, const char* param_name) {
  * - name: The name of the tool to call
  * - param_<name>: Tool parameters (e.g., param_text=hello for the "text" parameter)
  *
- * @param query The query string to parse
+ * libwebsockets has split the query at its separators and decoded each part.
+ *
+ * @param wsi WebSocket instance of the request
  * @return char* The JSON-RPC request (caller must free) or NULL on failure
  */
-static char* build_jsonrpc_request_from_query(const char* query) {
-    if (query == NULL || *query == '\0') {
-        mcp_log_error("Empty query string");
-        return NULL;
-    }
-
-    // Extract the tool name
-    char* tool_name = extract_query_param(query, "name");
-    if (tool_name == NULL) {
-        mcp_log_error("Missing 'name' parameter in query string");
-        return NULL;
-    }
-
-    // URL decode the tool name
-    char* decoded_tool_name = url_decode(tool_name);
-    free(tool_name);
-
-    if (decoded_tool_name == NULL) {
-        mcp_log_error("Failed to decode tool name");
-        return NULL;
-    }
-
+static char* build_jsonrpc_request_from_query(struct lws* wsi) {
     // Create a JSON object for the tool arguments
     mcp_json_t* args_obj = mcp_json_object_create();
     if (args_obj == NULL) {
         mcp_log_error("Failed to create JSON object for tool arguments");
-        free(decoded_tool_name);
         return NULL;
     }
 
-    // Parse the query string to extract parameters
     const char* param_prefix = "param_";
     size_t param_prefix_len = strlen(param_prefix);
+    char* tool_name = NULL;
+    char param[HTTP_QUERY_BUFFER_SIZE];
 
-    // Make a copy of the query string for tokenization
-    char* query_copy = mcp_strdup(query);
-    if (query_copy == NULL) {
-        mcp_log_error("Failed to duplicate query string");
-        mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
-        return NULL;
-    }
-
-    // Split the query string by '&'
-    char* token = strtok(query_copy, "&");
-    while (token != NULL) {
-        // Check if this is a parameter token
-        if (strncmp(token, param_prefix, param_prefix_len) == 0) {
-            // Extract parameter name and value
-            char* equals = strchr(token, '=');
-            if (equals != NULL) {
-                // Extract parameter name (after "param_" prefix)
-                size_t name_len = equals - (token + param_prefix_len);
-                char* param_name = (char*)malloc(name_len + 1);
-                if (param_name != NULL) {
-                    strncpy(param_name, token + param_prefix_len, name_len);
-                    param_name[name_len] = '\0';
-
-                    // Extract parameter value
-                    char* param_value = mcp_strdup(equals + 1);
-                    if (param_value != NULL) {
-                        // URL decode the parameter value
-                        char* decoded_value = url_decode(param_value);
-                        free(param_value);
-
-                        if (decoded_value != NULL) {
-                            // Add the parameter to the arguments object
-                            mcp_json_object_set_string(args_obj, param_name, decoded_value);
-                            free(decoded_value);
-                        }
-                    }
+    for (int i = 0; lws_hdr_copy_fragment(wsi, param, sizeof(param), WSI_TOKEN_HTTP_URI_ARGS, i) >= 0; i++) {
+        // Separate name and value
+        char* value = strchr(param, '=');
+        if (value == NULL) {
+            continue;
+        }
+        *value++ = '\0';
 
-                    free(param_name);
-                }
+        if (strcmp(param, "name") == 0) {
+            if (tool_name == NULL) {
+                tool_name = mcp_strdup(value);
             }
+        } else if (strncmp(param, param_prefix, param_prefix_len) == 0) {
+            // Add the parameter to the arguments object
+            mcp_json_object_set_string(args_obj, param + param_prefix_len, value);
         }
-
-        // Get the next token
-        token = strtok(NULL, "&");
     }
 
-    free(query_copy);
+    if (tool_name == NULL) {
+        mcp_log_error("Missing 'name' parameter in query string");
+        mcp_json_destroy(args_obj);
+        return NULL;
+    }
 
     // Create the JSON-RPC request
     mcp_json_t* request_obj = mcp_json_object_create();
     if (request_obj == NULL) {
         mcp_log_error("Failed to create JSON object for request");
         mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
+        free(tool_name);
         return NULL;
     }
 
@@ -682,12 +530,12 @@ static char* build_jsonrpc_request_from_query(const char* query) {
         mcp_log_error("Failed to create JSON object for params");
         mcp_json_destroy(request_obj);
         mcp_json_destroy(args_obj);
-        free(decoded_tool_name);
+        free(tool_name);
         return NULL;
     }
 
     // Add the tool name to the params
-    mcp_json_object_set_string(params_obj, "name", decoded_tool_name);
+    mcp_json_object_set_string(params_obj, "name", tool_name);
 
     // Add the arguments to the params
     mcp_json_object_set_property(params_obj, "arguments", args_obj);
@@ -700,7 +548,7 @@ static char* build_jsonrpc_request_from_query(const char* query) {
 
     // Clean up
     mcp_json_destroy(request_obj); // This will also destroy params_obj and args_obj
-    free(decoded_tool_name);
+    free(tool_name);
 
     return request_json;
 }
@@ -969,25 +817,16 @@ static int handle_http_call_tool_request(struct lws* wsi, http_transport_data_t*
     else if (method[0] != '\0' && strcmp(method, "GET") == 0) {
         mcp_log_info("Processing GET request for tool call");
 
-        // Get query string
-        char query[HTTP_QUERY_BUFFER_SIZE] = {0};
+        // Check the query string
         int query_len = lws_hdr_total_length(wsi, WSI_TOKEN_HTTP_URI_ARGS);
 
-        if (query_len <= 0 || query_len >= (int)sizeof(query)) {
+        if (query_len <= 0 || query_len >= HTTP_QUERY_BUFFER_SIZE) {
             mcp_log_error("Missing or invalid query parameters for GET tool call");
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Missing or invalid query parameters");
         }
 
-        // Copy query string
-        if (lws_hdr_copy(wsi, query, sizeof(query), WSI_TOKEN_HTTP_URI_ARGS) < 0) {
-            mcp_log_error("Failed to copy query string");
-            return send_http_error_response(wsi, HTTP_STATUS_INTERNAL_SERVER_ERROR, "Failed to process query parameters");
-        }
-
-        mcp_log_debug("Tool call query string: '%s'", query);
-
         // Build JSON-RPC request from query parameters
-        char* request_json = build_jsonrpc_request_from_query(query);
+        char* request_json = build_jsonrpc_request_from_query(wsi);
         mcp_arena_reset_current_thread();
         if (!request_json) {
             mcp_log_error("Failed to build JSON-RPC request from query parameters");
-- 
2.43.0


From c738ce6640aeafe304d873315e294fdc74b39aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 117/120] fix: match whole parameter names in the query of an
 event stream request

---
 src/transport/mcp_http_server_callbacks.c | 4 ++++
 src/transport/mcp_http_server_handlers.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/transport/mcp_http_server_callbacks.c b/src/transport/mcp_http_server_callbacks.c
index f04aa33..12869ac 100644
--- a/src/transport/mcp_http_server_callbacks.c
+++ b/src/transport/mcp_http_server_callbacks.c
@@ -566,6 +566,10 @@ static char* extract_session_id_from_query(const char* query) {
 
     // Look for session_id parameter
     const char* session_id_param = strstr(query, "session_id=");
+    while (session_id_param != NULL && session_id_param != query && session_id_param[-1] != '&') {
+        // Only the end of another parameter's name, or part of a value
+        session_id_param = strstr(session_id_param + 1, "session_id=");
+    }
     if (session_id_param == NULL) {
         return NULL;
     }
diff --git a/src/transport/mcp_http_server_handlers.c b/src/transport/mcp_http_server_handlers.c
index be82bfa..1e69d15 100644
--- a/src/transport/mcp_http_server_handlers.c
+++ b/src/transport/mcp_http_server_handlers.c
@@ -318,6 +318,10 @@ static char* extract_query_param(const char* query, const char* param_name) {
 
     // Find the parameter in the query string
     const char* param_start = strstr(query, prefix);
+    while (param_start != NULL && param_start != query && param_start[-1] != '&') {
+        // Only the end of another parameter's name, or part of a value
+        param_start = strstr(param_start + 1, prefix);
+    }
     free(prefix); // Free the prefix buffer
 
     if (param_start == NULL) {
-- 
2.43.0


From 9e8e88c25f3db635684f240a72964ed109223b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 118/120] fix: free the body of a request whose origin is
 refused

The session data is cleared for the next request of the connection without freeing the body.
---
 src/transport/mcp_sthttp_threads.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index c660134..c391804 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -226,6 +226,11 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     // Validate origin if required
     if (data->validate_origin && session_data->origin[0] != '\0') {
         if (!validate_origin(data, session_data->origin)) {
+            // The session data does not outlive the end of the transaction
+            free(session_data->request_body);
+            session_data->request_body = NULL;
+            session_data->request_body_size = 0;
+            session_data->request_body_capacity = 0;
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
         }
     }
-- 
2.43.0


From 03b5443d4b9028ddc018cbd210c86d0669c5a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 119/120] fix: check origins too long for their buffer

lws_hdr_copy refuses a header longer than the buffer, and the failure was taken for a missing header.
---
 src/transport/internal/sthttp_transport_internal.h | 1 +
 src/transport/mcp_sthttp_callbacks.c               | 3 +++
 src/transport/mcp_sthttp_threads.c                 | 8 ++++----
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/transport/internal/sthttp_transport_internal.h b/src/transport/internal/sthttp_transport_internal.h
index 41bd73c..496c15d 100644
--- a/src/transport/internal/sthttp_transport_internal.h
+++ b/src/transport/internal/sthttp_transport_internal.h
@@ -200,6 +200,7 @@ typedef struct {
     // Origin validation
     char origin[HTTP_ORIGIN_BUFFER_SIZE];        /**< Origin header value */
     bool origin_validated;                       /**< Whether origin has been validated */
+    bool origin_too_long;                        /**< Whether the Origin header does not fit */
 } sthttp_session_data_t;
 
 /**
diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 71e7add..14cfa30 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -298,6 +298,9 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
     } else {
         session->origin[0] = '\0';
     }
+
+    // An origin that was not copied for its length is not a missing one
+    session->origin_too_long = lws_hdr_total_length(wsi, WSI_TOKEN_ORIGIN) >= (int)sizeof(session->origin);
 }
 
 /**
diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index c391804..3d91ca3 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -224,8 +224,8 @@ int handle_mcp_post_request(struct lws* wsi, sthttp_transport_data_t* data, stht
     }
 
     // Validate origin if required
-    if (data->validate_origin && session_data->origin[0] != '\0') {
-        if (!validate_origin(data, session_data->origin)) {
+    if (data->validate_origin && (session_data->origin[0] != '\0' || session_data->origin_too_long)) {
+        if (session_data->origin_too_long || !validate_origin(data, session_data->origin)) {
             // The session data does not outlive the end of the transaction
             free(session_data->request_body);
             session_data->request_body = NULL;
@@ -307,8 +307,8 @@ int handle_mcp_get_request(struct lws* wsi, sthttp_transport_data_t* data, sthtt
     }
 
     // Validate origin if required
-    if (data->validate_origin && session_data->origin[0] != '\0') {
-        if (!validate_origin(data, session_data->origin)) {
+    if (data->validate_origin && (session_data->origin[0] != '\0' || session_data->origin_too_long)) {
+        if (session_data->origin_too_long || !validate_origin(data, session_data->origin)) {
             return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
         }
     }
-- 
2.43.0


From a0e7d8cae4dbd66ce03a164d4594c86f64725900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:51 +0000
Subject: [PATCH 120/120] fix: end escaped text before an escape sequence that
 does not fit

mcp_json_escape_string copied the part of the sequence for which there was room.
---
 src/json/mcp_json_utils.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/json/mcp_json_utils.c b/src/json/mcp_json_utils.c
index 2e6153c..9e5345e 100644
--- a/src/json/mcp_json_utils.c
+++ b/src/json/mcp_json_utils.c
@@ -21,13 +21,8 @@ static inline bool write_safe(char* output, size_t output_size, size_t* out_idx,
         if (*out_idx + len < output_size) {
             memcpy(output + *out_idx, str, len);
         } else if (*out_idx < output_size) {
-            // Write partial if possible, but indicate truncation by returning false later
-            size_t remaining_space = output_size - *out_idx -1; // Leave space for null term
-            if (remaining_space > 0) {
-                memcpy(output + *out_idx, str, remaining_space);
-            }
-            // Ensure null termination even if truncated
-            output[output_size - 1] = '\0';
+            // End here: part of an escape sequence would not be valid JSON
+            output[*out_idx] = '\0';
         }
         // If output_size is 0 or 1, we can't write anything meaningful + null term
     }
-- 
2.43.0

