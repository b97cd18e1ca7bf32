/* P11: blocks from every allocator are large enough, aligned, disjoint and keep their contents. Each
 * live block is stamped over its whole length and checked when released and at random moments; the
 * modes cover one allocator each, "mt" hands blocks between threads, "edge" asks for absurd sizes. */
#include "vh.h"
#include "mcp_arena.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_object_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_object_cache.h"
#include "mcp_thread_local.h"
#include "mcp_memory_constants.h"
#include "mcp_log.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>

/* ---- live block bookkeeping ---------------------------------------------------------------- */
typedef struct { unsigned char* p; size_t n; uint64_t id; int tag; } blk;
typedef struct { blk b[512]; int n; } live;

static inline unsigned char pat(uint64_t id, size_t i) { return (unsigned char)((id * 131 + i * 7 + (i >> 8) * 13) ^ (id >> 8)); }
static void stamp(blk* b) { for (size_t i = 0; i < b->n; i++) b->p[i] = pat(b->id, i); }
static bool intact(const char* who, const blk* b) {
    for (size_t i = 0; i < b->n; i++)
        if (b->p[i] != pat(b->id, i)) {
            vh_viol("contents", "%s: live block %llu of %zu bytes changed at offset %zu", who, (unsigned long long)b->id, b->n, i);
            return false;
        }
    return true;
}
static bool add(const char* who, live* l, void* p, size_t n, uint64_t id, int tag) {
    if (((uintptr_t)p & 7) != 0) { vh_viol("alignment", "%s: block of %zu bytes at an address that is not a multiple of 8 (mod 8 = %d)", who, n, (int)((uintptr_t)p & 7)); return false; }
    for (int i = 0; i < l->n; i++) {
        unsigned char* a = l->b[i].p;
        if ((unsigned char*)p < a + l->b[i].n && a < (unsigned char*)p + n) {
            vh_viol("overlap", "%s: new block of %zu bytes overlaps a live block of %zu bytes (distance %ld)", who, n, l->b[i].n, (long)((char*)p - (char*)a));
            return false;
        }
    }
    blk* b = &l->b[l->n++]; b->p = p; b->n = n; b->id = id; b->tag = tag; stamp(b);
    return true;
}
static blk take(live* l, int i) { blk b = l->b[i]; l->b[i] = l->b[--l->n]; return b; }

static size_t rsize(vh_rng* r, size_t max) {
    static const size_t edge[] = { 1, 7, 8, 9, 16, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536 };
    size_t n;
    switch (vh_below(r, 4)) {
    case 0: n = edge[vh_below(r, sizeof edge / sizeof *edge)]; break;
    case 1: n = 1 + vh_below(r, 40); break;
    case 2: n = 1 + vh_below(r, 1200); break;
    default: n = vh_chance(r, 10) ? 1 + vh_below(r, 100000) : 1 + vh_below(r, 5000);
    }
    return n > max ? 1 + n % max : n;
}
static uint64_t H; static long ops;

/* ---- arena -------------------------------------------------------------------------------- */
static void arena_case(vh_rng* r) {
    mcp_arena_t ar[3]; live l[4]; size_t given[4] = { 0 };
    memset(l, 0, sizeof l);
    bool tl = vh_chance(r, 60), tc = vh_chance(r, 50);
    if (tc) mcp_thread_cache_init();
    for (int i = 0; i < 3; i++) { memset(&ar[i], 0, sizeof ar[i]); mcp_arena_init(&ar[i], vh_chance(r, 20) ? 0 : rsize(r, 70000)); }
    if (tl) mcp_arena_init_current_thread(rsize(r, 9000));
    uint64_t id = vh_next(r) >> 20;
    int n = 20 + (int)vh_below(r, 400);
    for (int k = 0; k < n && !vh_viol_count(); k++, ops++) {
        int a = (int)vh_below(r, tl ? 4 : 3), c = (int)vh_below(r, 100);
        mcp_arena_t* A = a == 3 ? mcp_arena_get_current() : &ar[a];
        H = vh_hash(&c, sizeof c, H);
        if (c < 88) {
            if (l[a].n >= 500) continue;
            size_t s = rsize(r, 80000); H = vh_hash(&s, sizeof s, H);
            if (vh_chance(r, 3)) s = 0;
            void* p = a == 3 && vh_chance(r, 50) ? (vh_chance(r, 50) ? mcp_arena_alloc(NULL, s) : mcp_arena_alloc_if_exists(s)) : mcp_arena_alloc(A, s);
            if (!p) { vh_viol("null", "arena: %zu bytes refused", s); break; }
            bool dup = false;                         /* no block of another arena may be shared either */
            for (int o = 0; o < 4 && !dup; o++) for (int i = 0; o != a && i < l[o].n; i++)
                if ((unsigned char*)p < l[o].b[i].p + l[o].b[i].n && l[o].b[i].p < (unsigned char*)p + (s ? s : 1)) { vh_viol("overlap", "arena: block overlaps a live block of another arena"); dup = true; break; }
            if (!add("arena", &l[a], p, s ? s : 1, ++id, 0)) break;
            given[a] += s ? s : 1;
            size_t tot = 0, blocks = 0, cnt = 0; mcp_arena_get_stats(A, &tot, &blocks, &cnt);
            if (tot < given[a] || blocks < tot || cnt == 0) { vh_viol("stats", "arena: reports %zu bytes given out of %zu in %zu blocks after giving out %zu", tot, blocks, cnt, given[a]); break; }
        } else if (c < 93) {
            for (int i = 0; i < l[a].n; i++) if (!intact("arena", &l[a].b[i])) break;
            if (a == 3) mcp_arena_reset_current_thread(); else mcp_arena_reset(A);
            l[a].n = 0; given[a] = 0;
        } else if (c < 95) {
            for (int i = 0; i < l[a].n; i++) if (!intact("arena", &l[a].b[i])) break;
            if (a == 3) { mcp_arena_destroy_current_thread(); mcp_arena_init_current_thread(rsize(r, 9000)); }
            else if (vh_chance(r, 50)) mcp_arena_cleanup(A); else { mcp_arena_destroy(A); mcp_arena_init(A, rsize(r, 70000)); }
            l[a].n = 0; given[a] = 0;
        } else if (l[a].n) intact("arena", &l[a].b[vh_below(r, (uint64_t)l[a].n)]);
    }
    for (int a = 0; a < 4; a++) for (int i = 0; i < l[a].n && !vh_viol_count(); i++) intact("arena", &l[a].b[i]);
    for (int i = 0; i < 3; i++) mcp_arena_destroy(&ar[i]);
    if (tl) mcp_arena_destroy_current_thread();
    if (tc) mcp_thread_cache_cleanup();
}

/* ---- memory pools --------------------------------------------------------------------------- */
static void pool_case(vh_rng* r) {
    mcp_memory_pool_t* p[3]; size_t bs[3], mx[3]; live l; memset(&l, 0, sizeof l); int held[3] = { 0 };
    for (int i = 0; i < 3; i++) {
        bs[i] = 24 + rsize(r, 3000); mx[i] = vh_chance(r, 40) ? 1 + vh_below(r, 40) : 0;
        size_t init = vh_below(r, 20); if (mx[i] && init > mx[i]) init = mx[i];
        p[i] = mcp_memory_pool_create(bs[i], init, mx[i]);
        if (!p[i]) { vh_viol("null", "memory pool of %zu byte blocks refused", bs[i]); return; }
        H = vh_hash(&bs[i], sizeof bs[i], H);
    }
    uint64_t id = vh_next(r) >> 20;
    int n = 50 + (int)vh_below(r, 500);
    for (int k = 0; k < n && !vh_viol_count(); k++, ops++) {
        int a = (int)vh_below(r, 3); int c = (int)vh_below(r, 100); H = vh_hash(&c, sizeof c, H);
        if (c < 52) {
            if (l.n >= 400) continue;
            void* q = mcp_memory_pool_alloc(p[a]);
            if (!q) { if (!mx[a] || held[a] < (int)mx[a]) vh_viol("null", "memory pool: block refused with %d of %zu in use", held[a], mx[a]); continue; }
            if (mx[a] && held[a] >= (int)mx[a]) { vh_viol("bound", "memory pool: %d blocks in use with a maximum of %zu", held[a] + 1, mx[a]); break; }
            held[a]++; add("memory pool", &l, q, bs[a], ++id, a);
        } else if (c < 95) {
            if (!l.n) continue;
            blk b = take(&l, (int)vh_below(r, (uint64_t)l.n)); intact("memory pool", &b);
            if (vh_chance(r, 10)) { int o = (b.tag + 1) % 3; if (mcp_memory_pool_free(p[o], b.p)) vh_viol("foreign", "memory pool accepted a block of another pool"); if (!intact("memory pool", &b)) break; }
            if (vh_chance(r, 5)) { long x[40]; memset(x, 0x55, sizeof x); if (mcp_memory_pool_free(p[b.tag], &x[20])) vh_viol("foreign", "memory pool accepted memory that is not a pool block"); }
            if (!mcp_memory_pool_free(p[b.tag], b.p)) vh_viol("refused", "memory pool refused its own block");
            held[b.tag]--;
        } else {
            mcp_memory_pool_stats_t st; memset(&st, 0, sizeof st);
            if (!mcp_memory_pool_get_stats(p[a], &st)) { vh_viol("stats", "memory pool: no statistics"); break; }
            if (st.allocated_blocks != (size_t)held[a] || st.total_blocks != st.free_blocks + st.allocated_blocks || st.block_size < bs[a])
                vh_viol("stats", "memory pool: %zu total, %zu free, %zu allocated while %d are held", st.total_blocks, st.free_blocks, st.allocated_blocks, held[a]);
        }
    }
    for (int i = 0; i < l.n && !vh_viol_count(); i++) intact("memory pool", &l.b[i]);
    for (int i = 0; i < l.n; i++) if (vh_chance(r, 80)) mcp_memory_pool_free(p[l.b[i].tag], l.b[i].p);
    for (int i = 0; i < 3; i++) mcp_memory_pool_destroy(p[i]);
}

/* ---- pool system, thread cache, object cache: any size, freed with or without its size ------------ */
enum { SYS, TC, OC };
static long ctor, dtor;
static void on_ctor(void* p) { (void)p; ctor++; }
static void on_dtor(void* p) { (void)p; dtor++; }
static void cfg_tc(vh_rng* r) {
    mcp_thread_cache_config_t c; memset(&c, 0, sizeof c);
    c.small_cache_size = vh_below(r, 80); c.medium_cache_size = vh_below(r, 80); c.large_cache_size = vh_below(r, 80);
    c.adaptive_sizing = vh_chance(r, 50); c.growth_threshold = (double)vh_below(r, 12) / 10; c.shrink_threshold = (double)vh_below(r, 12) / 10;
    c.min_cache_size = vh_below(r, 10); c.max_cache_size = vh_below(r, 200); c.lru_enabled = (int)vh_below(r, 3) - 1;
    if (!mcp_thread_cache_is_initialized()) mcp_thread_cache_init_with_config(vh_chance(r, 30) ? NULL : &c); else mcp_thread_cache_configure(&c);
}
static void cfg_oc(vh_rng* r, int t, bool first) {
    mcp_object_cache_config_t c; memset(&c, 0, sizeof c);
    c.max_size = vh_below(r, 80); c.adaptive_sizing = vh_chance(r, 60); c.growth_threshold = (double)vh_below(r, 12) / 10; c.shrink_threshold = (double)vh_below(r, 12) / 10;
    c.min_cache_size = vh_below(r, 10); c.max_cache_size = vh_below(r, 300); c.constructor = on_ctor; c.destructor = on_dtor;
    if (first) mcp_object_cache_init((mcp_object_cache_type_t)t, &c); else mcp_object_cache_configure((mcp_object_cache_type_t)t, &c);
}
static void any_case(vh_rng* r, int kind) {
    static const char* nm[] = { "mcp_pool_alloc", "thread cache", "object cache" };
    live l; memset(&l, 0, sizeof l); uint64_t id = vh_next(r) >> 20; ctor = dtor = 0;
    bool sys = kind == SYS || vh_chance(r, 70), leave = false;
    if (sys) mcp_memory_pool_system_init(vh_below(r, 20), vh_below(r, 20), vh_below(r, 20));
    if (kind == TC && vh_chance(r, 85)) cfg_tc(r);
    if (kind == OC) for (int t = 0; t < MCP_OBJECT_CACHE_TYPE_COUNT; t++) cfg_oc(r, t, true);
    size_t fixed = vh_chance(r, 40) ? rsize(r, 5000) : 0;
    int n = 50 + (int)vh_below(r, 700);
    for (int k = 0; k < n && !vh_viol_count(); k++, ops++) {
        int c = (int)vh_below(r, 100), grow = (k / 60) & 1; H = vh_hash(&c, sizeof c, H);
        if (c < (grow ? 65 : 35)) {
            if (l.n >= 400) continue;
            size_t s = fixed && vh_chance(r, 80) ? fixed : rsize(r, 20000); int t = kind == OC ? (int)vh_below(r, 3) : 0;
            H = vh_hash(&s, sizeof s, H);
            void* p = kind == SYS ? mcp_pool_alloc(s) : kind == TC ? mcp_thread_cache_alloc(s) : vh_chance(r, 50) ? mcp_object_cache_alloc((mcp_object_cache_type_t)t, s) : mcp_thread_cache_alloc_object((mcp_object_cache_type_t)t, s);
            if (!p) { vh_viol("null", "%s: %zu bytes refused", nm[kind], s); break; }
            size_t have = mcp_pool_get_block_size(p);
            if (have && have < s) { vh_viol("size", "%s: asked for %zu bytes, got a pool block of %zu", nm[kind], s, have); break; }
            if (!add(nm[kind], &l, p, s, ++id, t)) break;
        } else if (c < 95) {
            if (!l.n) continue;
            blk b = take(&l, (int)vh_below(r, (uint64_t)l.n)); intact(nm[kind], &b);
            size_t s = vh_chance(r, 25) ? 0 : b.n;
            if (kind == SYS) mcp_pool_free(b.p);
            else if (kind == TC) mcp_thread_cache_free(b.p, s);
            else if (vh_chance(r, 50)) mcp_object_cache_free((mcp_object_cache_type_t)b.tag, b.p, s);
            else mcp_thread_cache_free_object((mcp_object_cache_type_t)b.tag, b.p, s);
        } else if (c == 95) {
            if (kind == TC) mcp_thread_cache_flush(); else if (kind == OC) mcp_object_cache_flush((mcp_object_cache_type_t)vh_below(r, 3));
        } else if (c == 96) {
            if (kind == TC) { if (vh_chance(r, 30)) mcp_thread_cache_cleanup(); else cfg_tc(r); }
            else if (kind == OC) cfg_oc(r, (int)vh_below(r, 3), false);
        } else if (c == 97) {
            if (kind == TC) { mcp_thread_cache_enable_adaptive_sizing(vh_chance(r, 50)); mcp_thread_cache_adjust_size(); }
            else if (kind == OC) mcp_object_cache_enable_adaptive_sizing((mcp_object_cache_type_t)vh_below(r, 3), vh_chance(r, 70));
        } else if (c == 98 && kind == TC) {
            mcp_thread_cache_stats_t st;
            if (mcp_thread_cache_get_stats(&st) && (st.total_operations != st.cache_hits + st.total_misses)) vh_viol("stats", "thread cache: %zu operations, %zu hits, %zu misses", st.total_operations, st.cache_hits, st.total_misses);
        } else if (l.n) intact(nm[kind], &l.b[vh_below(r, (uint64_t)l.n)]);
    }
    for (int i = 0; i < l.n && !vh_viol_count(); i++) intact(nm[kind], &l.b[i]);
    while (l.n) {
        blk b = take(&l, 0);
        if (kind == SYS) mcp_pool_free(b.p); else if (kind == TC) mcp_thread_cache_free(b.p, b.n); else mcp_object_cache_free((mcp_object_cache_type_t)b.tag, b.p, b.n);
    }
    if (kind == TC) mcp_thread_cache_cleanup();
    if (kind == OC) {
        for (int t = 0; t < MCP_OBJECT_CACHE_TYPE_COUNT; t++) mcp_object_cache_cleanup((mcp_object_cache_type_t)t);
        mcp_object_cache_system_shutdown(); mcp_thread_cache_cleanup_current_thread();
        if (!vh_viol_count() && ctor != dtor) vh_viol("destructor", "object cache: %ld objects constructed, %ld destructed after everything was released", ctor, dtor);
    }
    if (sys && !leave) {
        for (int c = 0; c < MCP_POOL_SIZE_COUNT && !vh_viol_count(); c++) {
            mcp_memory_pool_stats_t st;
            if (mcp_pool_get_stats((mcp_pool_size_class_t)c, &st) && st.allocated_blocks)
                vh_viol("residue", "%s: %zu pool blocks of %zu bytes still taken after everything was released", nm[kind], st.allocated_blocks, st.block_size);
        }
        mcp_memory_pool_system_cleanup();
    }
}

/* ---- object pool, buffer pool -------------------------------------------------------------- */
static void obj_case(vh_rng* r, int buf) {
    size_t s = rsize(r, 5000), init = vh_below(r, 20), mx = !buf && vh_chance(r, 40) ? 1 + vh_below(r, 60) : 0;
    if (buf && !init) init = 1;
    mcp_object_pool_t* p = NULL; mcp_buffer_pool_t* q = NULL; live l; memset(&l, 0, sizeof l); uint64_t id = vh_next(r) >> 20;
    if (buf) q = mcp_buffer_pool_create(s, init); else p = mcp_object_pool_create(s, init, mx);
    if (!p && !q) { vh_viol("null", "pool of %zu byte objects refused", s); return; }
    const char* nm = buf ? "buffer pool" : "object pool";
    H = vh_hash(&s, sizeof s, H);
    int n = 50 + (int)vh_below(r, 500);
    for (int k = 0; k < n && !vh_viol_count(); k++, ops++) {
        int c = (int)vh_below(r, 100), grow = (k / 60) & 1; H = vh_hash(&c, sizeof c, H);
        if (c < (grow ? 62 : 32)) {
            if (l.n >= 400) continue;
            void* o = buf ? mcp_buffer_pool_acquire(q) : mcp_object_pool_acquire(p);
            if (!o) { if (!mx || l.n < (int)mx) vh_viol("null", "%s: refused with %d of %zu in use", nm, l.n, mx); continue; }
            if (mx && l.n >= (int)mx) { vh_viol("bound", "%s: more than its maximum of %zu objects in use", nm, mx); break; }
            add(nm, &l, o, s, ++id, 0);
        } else if (c < 92) {
            if (!l.n) continue;
            blk b = take(&l, (int)vh_below(r, (uint64_t)l.n)); intact(nm, &b);
            if (buf) mcp_buffer_pool_release(q, b.p); else if (!mcp_object_pool_release(p, b.p)) vh_viol("refused", "object pool refused its own object");
        } else if (buf) {
            size_t t = 0, a = 0, f = 0; mcp_buffer_pool_get_stats(q, &t, &a, &f);
            if (a != (size_t)l.n || t != a + f || mcp_buffer_pool_get_buffer_size(q) < s) vh_viol("stats", "buffer pool: total %zu allocated %zu free %zu while %d are held", t, a, f, l.n);
        } else {
            size_t t = 0, f = 0, u = 0, pk = 0; mcp_object_pool_get_stats(p, &t, &f, &u, &pk);
            if (u != (size_t)l.n || t != u + f || pk < u || mcp_object_pool_get_total_count(p) != t || mcp_object_pool_get_free_count(p) != f || (mx && t > mx))
                vh_viol("stats", "object pool: total %zu free %zu used %zu peak %zu (maximum %zu) while %d are held", t, f, u, pk, mx, l.n);
        }
    }
    for (int i = 0; i < l.n && !vh_viol_count(); i++) intact(nm, &l.b[i]);
    while (l.n) { blk b = take(&l, 0); if (buf) mcp_buffer_pool_release(q, b.p); else mcp_object_pool_release(p, b.p); }
    if (buf) mcp_buffer_pool_destroy(q); else mcp_object_pool_destroy(p);
}

/* ---- absurd sizes ------------------------------------------------------------------------- */
static void edge_case(vh_rng* r) {
    mcp_arena_t a; memset(&a, 0, sizeof a); size_t def = rsize(r, 9000); mcp_arena_init(&a, def);
    live l; memset(&l, 0, sizeof l); uint64_t id = vh_next(r) >> 20;
    for (int k = 0; k < 30 && !vh_viol_count(); k++, ops++) {
        if (vh_chance(r, 50)) { size_t s = rsize(r, 5000); void* p = mcp_arena_alloc(&a, s); if (p) add("arena", &l, p, s, ++id, 0); continue; }
        size_t s = vh_chance(r, 60) ? SIZE_MAX - vh_below(r, 9000) : SIZE_MAX / (1 + vh_below(r, 5)) - vh_below(r, 64); H = vh_hash(&s, sizeof s, H);
        void* p = vh_chance(r, 70) ? mcp_arena_alloc(&a, s) : vh_chance(r, 50) ? mcp_pool_alloc(s) : mcp_thread_cache_alloc(s);
        if (p) { vh_viol("huge", "a request for %zu bytes was granted", s); break; }
        if (vh_chance(r, 20)) {
            mcp_object_pool_t* o = mcp_object_pool_create(SIZE_MAX / 64 - vh_below(r, 100), 64 + vh_below(r, 64), 0);
            if (o) { size_t f = mcp_object_pool_get_free_count(o); if (f) vh_viol("huge", "an object pool of impossible objects claims %zu free ones", f); mcp_object_pool_destroy(o); }
            mcp_memory_pool_t* m = mcp_memory_pool_create(SIZE_MAX - vh_below(r, 64), 1, 0);
            if (m) { void* q = mcp_memory_pool_alloc(m); if (q) vh_viol("huge", "a memory pool of impossible blocks granted one"); mcp_memory_pool_destroy(m); }
            mcp_buffer_pool_t* b = mcp_buffer_pool_create(SIZE_MAX - vh_below(r, 64), 1);
            if (b) { vh_viol("huge", "a buffer pool of impossible buffers was created"); mcp_buffer_pool_destroy(b); }
        }
    }
    for (int i = 0; i < l.n && !vh_viol_count(); i++) intact("arena", &l.b[i]);
    mcp_arena_destroy(&a);
}

/* ---- threads -------------------------------------------------------------------------------- */
#define BOX 32
static struct { pthread_mutex_t m; blk b[BOX]; int kind[BOX]; int n; } box = { .m = PTHREAD_MUTEX_INITIALIZER };
static mcp_memory_pool_t* mp; static mcp_object_pool_t* op; static mcp_buffer_pool_t* bp; static size_t ms, os, bs2, omax; static int nops; static unsigned kinds;
static pthread_barrier_t bar;
static int order[4096]; static int norder;
static void give_back(int kind, blk* b) {
    if (kind == 0) { if (!mcp_memory_pool_free(mp, b->p)) vh_viol("refused", "memory pool refused its own block"); }
    else if (kind == 1) { if (!mcp_object_pool_release(op, b->p)) vh_viol("refused", "object pool refused its own object"); }
    else if (kind == 2) mcp_buffer_pool_release(bp, b->p);
    else if (kind == 3) mcp_pool_free(b->p);
    else mcp_thread_cache_free(b->p, b->n);
}
static void* mt_thread(void* arg) {
    vh_rng r; vh_rng_seed(&r, (uint64_t)(uintptr_t)arg * 7919 + vh_seed); uint64_t id = (uint64_t)(uintptr_t)arg << 16;
    static const char* nm[] = { "memory pool (threads)", "object pool (threads)", "buffer pool (threads)", "mcp_pool_alloc (threads)", "thread cache (threads)" };
    blk mine[64]; int mk[64], n = 0;
    mcp_arena_t ar; memset(&ar, 0, sizeof ar); mcp_arena_init(&ar, rsize(&r, 3000)); live la; memset(&la, 0, sizeof la);
    bool tc = (kinds & 16) && vh_chance(&r, 70);
    pthread_barrier_wait(&bar);
    if (tc) mcp_thread_cache_init();
    for (int k = 0; k < nops && !vh_viol_count(); k++) {
        int c = (int)vh_below(&r, 100);
        if (c < 42 && n < 64) {
            int kind; do kind = (int)vh_below(&r, 5); while (!(kinds & 1u << kind));
            size_t s = kind == 0 ? ms : kind == 1 ? os : kind == 2 ? bs2 : rsize(&r, 4500);
            void* p = kind == 0 ? mcp_memory_pool_alloc(mp) : kind == 1 ? mcp_object_pool_acquire(op) : kind == 2 ? mcp_buffer_pool_acquire(bp) : kind == 3 ? mcp_pool_alloc(s) : mcp_thread_cache_alloc(s);
            if (!p) { if (kind != 1 || !omax) vh_viol("null", "%s: refused", nm[kind]); continue; }
            if ((uintptr_t)p & (kind == 1 || kind == 2 ? 7 : 15)) { vh_viol("alignment", "%s: misaligned", nm[kind]); break; }
            blk b = { p, s, ++id, 0 }; stamp(&b); mine[n] = b; mk[n++] = kind;
            if (vh_chance(&r, 10)) vh_yield_noise(&r);
        } else if (c < 72 && n) {
            int i = (int)vh_below(&r, (uint64_t)n); blk b = mine[i]; int kind = mk[i]; mine[i] = mine[--n]; mk[i] = mk[n];
            intact(nm[kind], &b); give_back(kind, &b);
        } else if (c < 82 && n) {
            int i = (int)vh_below(&r, (uint64_t)n); blk b = mine[i]; int kind = mk[i], put = 0;
            pthread_mutex_lock(&box.m);
            if (box.n < BOX) { box.b[box.n] = b; box.kind[box.n++] = kind; put = 1; }
            pthread_mutex_unlock(&box.m);
            if (put) { mine[i] = mine[--n]; mk[i] = mk[n]; }
        } else if (c < 92) {
            blk b; int kind = -1;
            pthread_mutex_lock(&box.m);
            if (box.n) { b = box.b[--box.n]; kind = box.kind[box.n]; if (norder < 4096) order[norder++] = (int)(uintptr_t)arg * 8 + kind; }
            pthread_mutex_unlock(&box.m);
            if (kind >= 0) { intact(nm[kind], &b); give_back(kind, &b); }
        } else if (la.n < 500) {
            size_t s = rsize(&r, 3000); void* p = mcp_arena_alloc(&ar, s);
            if (!p) vh_viol("null", "arena (threads): refused"); else add("arena (threads)", &la, p, s, ++id, 0);
            if (vh_chance(&r, 8)) { for (int i = 0; i < la.n; i++) intact("arena (threads)", &la.b[i]); mcp_arena_reset(&ar); la.n = 0; }
        }
    }
    for (int i = 0; i < n; i++) { intact(nm[mk[i]], &mine[i]); give_back(mk[i], &mine[i]); }
    for (int i = 0; i < la.n; i++) intact("arena (threads)", &la.b[i]);
    mcp_arena_destroy(&ar);
    if (tc) mcp_thread_cache_cleanup();
    return NULL;
}
static void mt_case(vh_rng* r) {
    int nt = 2 + (int)vh_below(r, 5); pthread_t t[8];
    ms = 24 + rsize(r, 600); os = rsize(r, 600); bs2 = rsize(r, 600); omax = vh_chance(r, 50) ? 10 + vh_below(r, 40) : 0; nops = 100 + (int)vh_below(r, 500);
    do kinds = (unsigned)vh_below(r, 32); while (!kinds);
    bool presys = vh_chance(r, 50);         /* otherwise the first mcp_pool_alloc calls set the system up */
    mp = mcp_memory_pool_create(ms, vh_below(r, 20), 0); op = mcp_object_pool_create(os, vh_below(r, 20), omax); bp = mcp_buffer_pool_create(bs2, 1 + vh_below(r, 10));
    if (presys) mcp_memory_pool_system_init(vh_below(r, 10), vh_below(r, 10), vh_below(r, 10));   /* after the pools, whose locks would count */
    norder = 0; box.n = 0;
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, mt_thread, (void*)(uintptr_t)(vh_below(r, 100000) * 8 + (unsigned)i + 1));
    for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < box.n; i++) { intact("handed over block", &box.b[i]); give_back(box.kind[i], &box.b[i]); }
    box.n = 0;
    if (!vh_viol_count()) {
        mcp_memory_pool_stats_t st; mcp_memory_pool_get_stats(mp, &st); if (st.allocated_blocks) vh_viol("residue", "memory pool: %zu blocks still counted as taken after all were released", st.allocated_blocks);
        size_t a = 0, b = 0, c = 0, d = 0; mcp_object_pool_get_stats(op, &a, &b, &c, &d); if (c || a != b || (omax && a > omax)) vh_viol("residue", "object pool: total %zu free %zu used %zu after all were released (maximum %zu)", a, b, c, omax);
        mcp_buffer_pool_get_stats(bp, &a, &b, &c); if (b || a != c) vh_viol("residue", "buffer pool: total %zu allocated %zu free %zu after all were released", a, b, c);
        for (int k = 0; k < MCP_POOL_SIZE_COUNT; k++) if (mcp_pool_get_stats((mcp_pool_size_class_t)k, &st) && st.allocated_blocks)
            vh_viol("residue", "pool system: %zu blocks of %zu bytes still taken after all were released", st.allocated_blocks, st.block_size);
    }
    mcp_memory_pool_destroy(mp); mcp_object_pool_destroy(op); mcp_buffer_pool_destroy(bp); mcp_memory_pool_system_cleanup();
    ops += (long)nt * nops; H = vh_hash(order, sizeof(int) * (size_t)norder, H);
}

int main(int argc, char** argv) {
    vh_init(argc, argv);
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    for (long c = 0; c < vh_cases && !vh_viol_count(); c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)c); vh_note("case %ld", c); H = 0;
        const char* m = vh_mode;
        if (!strcmp(m, "arena")) { if (vh_chance(&r, 50)) mcp_memory_pool_system_init(4, 4, 4); arena_case(&r); mcp_memory_pool_system_cleanup(); }
        else if (!strcmp(m, "pool")) pool_case(&r);
        else if (!strcmp(m, "sys")) any_case(&r, SYS);
        else if (!strcmp(m, "tc")) any_case(&r, TC);
        else if (!strcmp(m, "oc")) any_case(&r, OC);
        else if (!strcmp(m, "obj")) obj_case(&r, 0);
        else if (!strcmp(m, "buf")) obj_case(&r, 1);
        else if (!strcmp(m, "edge")) { edge_case(&r); mcp_memory_pool_system_cleanup(); }
        else mt_case(&r);
        vh_evals(1); vh_distinct(H);
        if (c < 2) vh_sample("%s case %ld: %ld operations so far, history hash %016llx", m, c, ops, (unsigned long long)H);
    }
    vh_count("allocator operations", ops);
    return vh_finish();
}
