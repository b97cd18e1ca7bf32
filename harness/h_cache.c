// Resource cache against an LRU/TTL model and from many threads.
// LINK: -Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include "mcp_types.h"
#include "mcp_object_pool.h"
#include "mcp_cache.h"

static long long vtime = 1700000000LL;
static long long now(void) { return __atomic_load_n(&vtime, __ATOMIC_RELAXED); }
time_t __wrap_time(time_t* t) { time_t v = (time_t)now(); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { (void)c; ts->tv_sec = (time_t)now(); ts->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) { (void)z; tv->tv_sec = (time_t)now(); tv->tv_usec = 0; return 0; }

/* content of (key, version) is a function of both, so any reader can recompute it */
typedef struct { int type; const char* mime; size_t n; unsigned char* d; } it_t;
static int gen(int key, uint64_t ver, it_t* out) {
    vh_rng r; vh_rng_seed(&r, (uint64_t)key * 7919 + ver * 104729 + 1);
    static const char* mimes[] = { NULL, "", "text/plain", "application/x-very-long-media-type; charset=utf-8; q=1", "image/png", "text/\xc3\xa9" };
    int n = 1 + (int)vh_below(&r, 4);
    for (int i = 0; i < n; i++) {
        out[i].type = (int)vh_below(&r, 3); out[i].mime = mimes[vh_below(&r, 6)];
        out[i].n = vh_chance(&r, 10) ? 0 : 1 + vh_below(&r, vh_chance(&r, 80) ? 60 : 6000);
        if (i == 0 && out[i].n < 16) out[i].n = 16;
        out[i].d = malloc(out[i].n + 1);
        for (size_t k = 0; k < out[i].n; k++) out[i].d[k] = (unsigned char)vh_next(&r);
        if (i == 0) { memcpy(out[i].d, &ver, 8); int32_t k = key; memcpy(out[i].d + 8, &k, 4); }
    }
    return n;
}
static void gfree(it_t* g, int n) { for (int i = 0; i < n; i++) free(g[i].d); }
static int do_put(mcp_resource_cache_t* C, mcp_object_pool_t* P, const char* key, int k, uint64_t ver, int ttl) {
    it_t g[8]; int n = gen(k, ver, g);
    mcp_content_item_t it[8], *pp[8];
    for (int i = 0; i < n; i++) { it[i].type = g[i].type; it[i].mime_type = g[i].mime ? strdup(g[i].mime) : NULL; it[i].data = g[i].n ? g[i].d : NULL; it[i].data_size = g[i].n; pp[i] = &it[i]; }
    int rc = mcp_cache_put(C, key, P, pp, (size_t)n, ttl);
    /* the cache must hold its own copy: scribble over ours */
    for (int i = 0; i < n; i++) { memset(g[i].d, 0xEE, g[i].n); if (it[i].mime_type) memset(it[i].mime_type, 'X', strlen(it[i].mime_type)); free(it[i].mime_type); }
    gfree(g, n);
    return rc;
}
static const char* same_mime(const char* a, const char* b) { a = a ? a : ""; b = b ? b : ""; return strcmp(a, b) ? "media type" : NULL; }
/* returns the version found, 0 if the content is not any version of this key */
static uint64_t verify(int k, mcp_content_item_t** c, size_t n, const char** why) {
    *why = NULL;
    if (n < 1 || !c || !c[0] || !c[0]->data || c[0]->data_size < 12) { *why = "first item incomplete"; return 0; }
    uint64_t ver; memcpy(&ver, c[0]->data, 8);
    it_t g[8]; int gn = gen(k, ver, g);
    if ((size_t)gn != n) *why = "number of items";
    for (int i = 0; i < gn && !*why; i++) {
        if ((int)c[i]->type != g[i].type) *why = "type";
        else if (same_mime(c[i]->mime_type, g[i].mime)) *why = "media type";
        else if (c[i]->data_size != g[i].n) *why = "size";
        else if (g[i].n && memcmp(c[i]->data, g[i].d, g[i].n)) *why = "bytes";
    }
    gfree(g, gn);
    return *why ? 0 : ver;
}
static void release(mcp_object_pool_t* P, mcp_content_item_t** c, size_t n, int scribble) {
    for (size_t i = 0; i < n; i++) { if (scribble && c[i]->data) memset(c[i]->data, 0xDD, c[i]->data_size); mcp_content_item_release_pooled(P, c[i]); }
    free(c);
}

#define NKEY 60
static char kn[NKEY][200];
typedef struct { int in; uint64_t ver; long long exp; long long use; } me;

static void seq(vh_rng* r) {
    size_t cap = 1 + vh_below(r, vh_chance(r, 70) ? 8 : 40); int nk = 2 + (int)vh_below(r, NKEY - 2);
    long def = vh_chance(r, 20) ? 0 : vh_chance(r, 10) ? -1 : 1 + (long)vh_below(r, 30);
    for (int i = 0; i < nk; i++) { if (i % 7 == 6) { memset(kn[i], 'u', 150); sprintf(kn[i] + 150, "%d", i); } else sprintf(kn[i], i % 3 ? "res://%d" : "res://%d/x?y=%d", i, i); }
    mcp_object_pool_t* P[2]; P[0] = mcp_object_pool_create(sizeof(mcp_content_item_t), 4, 0);
    size_t lim = vh_chance(r, 15) ? 8 + vh_below(r, 20) : 0;
    P[1] = mcp_object_pool_create(sizeof(mcp_content_item_t), 2, lim);
    int two = vh_chance(r, 40);
    mcp_resource_cache_t* C = mcp_cache_create(cap, def);
    me* m = calloc((size_t)nk, sizeof *m); long long tick = 0; uint64_t ver = 0, h = 0;
    long hits = 0, miss = 0, evict = 0, expired = 0, pruned = 0;
    int ops = 100 + (int)vh_below(r, 500);
    for (int i = 0; i < ops; i++) {
        int op = (int)vh_below(r, 100), k = vh_chance(r, 60) ? (int)vh_below(r, (uint64_t)(nk < 5 ? nk : 5)) : (int)vh_below(r, (uint64_t)nk);
        mcp_object_pool_t* p = P[two ? vh_below(r, 2) : 0];
        h = vh_hash(&op, 4, vh_hash(&k, 4, h));
        if (op < 35) {
            int ttl = vh_chance(r, 40) ? 0 : vh_chance(r, 20) ? -1 : 1 + (int)vh_below(r, 20);
            int rc = do_put(C, p, kn[k], k, ++ver, ttl);
            if (rc) { if (!(p == P[1] && lim)) { vh_viol("put", "put refused (capacity %zu)", cap); goto out; } continue; }
            if (!m[k].in) {
                size_t n = 0; int lru = -1;
                for (int j = 0; j < nk; j++) if (m[j].in) { n++; if (lru < 0 || m[j].use < m[lru].use) lru = j; }
                if (n >= cap) { m[lru].in = 0; evict++; }
            }
            long e = ttl == 0 ? def : ttl;
            m[k].in = 1; m[k].ver = ver; m[k].exp = e > 0 ? now() + e : 0; m[k].use = ++tick;
        } else if (op < 75) {
            mcp_content_item_t** c = (void*)0x1; size_t n = 99;
            int rc = mcp_cache_get(C, kn[k], p, &c, &n);
            int live = m[k].in && (!m[k].exp || now() < m[k].exp);
            if (rc == 0) {
                const char* why; uint64_t v = verify(k, c, n, &why);
                if (!v) { vh_viol("content", "key %d: %s differ from every stored version", k, why); goto out; }
                if (!m[k].ver || v != m[k].ver) { vh_viol("stale", "key %d: version %lu returned, latest is %lu", k, (unsigned long)v, (unsigned long)m[k].ver); goto out; }
                if (m[k].in && !live) { vh_viol("expired", "key %d returned %lld s after it expired", k, now() - m[k].exp); goto out; }
                if (m[k].ver && !m[k].in && m[k].use == -1) { vh_viol("invalidated", "key %d returned after it was invalidated", k); goto out; }
                release(p, c, n, 1); hits++; m[k].use = ++tick;
            } else {
                if (c || n) { vh_viol("miss-output", "a miss left content behind"); goto out; }
                if (live && !(p == P[1] && lim)) { vh_viol("lost", "key %d not found although stored, unexpired and recently used (capacity %zu)", k, cap); goto out; }
                miss++;
                if (m[k].in && !live) { m[k].in = 0; m[k].use = -1; expired++; }
            }
        } else if (op < 82) {
            mcp_cache_invalidate(C, kn[k]); m[k].in = 0; m[k].use = -1;
        } else if (op < 86) {
            size_t want = 0; for (int j = 0; j < nk; j++) if (m[j].in && m[j].exp && now() >= m[j].exp) { want++; m[j].in = 0; m[j].use = -1; }
            size_t got = mcp_cache_prune_expired(C);
            if (got != want) { vh_viol("prune", "%zu entries pruned, %zu had expired", got, want); goto out; }
            pruned += (long)got;
        } else if (op < 96) { long long d = (long long)vh_below(r, vh_chance(r, 80) ? 4 : 25); __atomic_fetch_add(&vtime, d, __ATOMIC_RELAXED); }
    }
    {   /* what is retrievable right now never exceeds the capacity */
        size_t found = 0;
        for (int k = 0; k < nk; k++) {
            mcp_content_item_t** c = NULL; size_t n = 0;
            if (mcp_cache_get(C, kn[k], P[0], &c, &n) == 0) { const char* why; if (!verify(k, c, n, &why)) vh_viol("content", "key %d: %s", k, why); found++; release(P[0], c, n, 0); }
        }
        if (found > cap) vh_viol("capacity", "%zu entries held, capacity %zu", found, cap);
    }
out:
    mcp_cache_destroy(C);
    for (int i = 0; i < 2; i++) {
        size_t tot = 0, fr = 0, use = 0, peak = 0; mcp_object_pool_get_stats(P[i], &tot, &fr, &use, &peak);
        if (!vh_viol_count() && use != 0) vh_viol("leak", "%zu content items still held after the cache is gone (pool %d)", use, i);
        mcp_object_pool_destroy(P[i]);
    }
    free(m);
    vh_count("hits", hits); vh_count("misses", miss); vh_count("evictions", evict); vh_count("expired", expired); vh_count("pruned", pruned);
    vh_sample("capacity %zu, %d keys, ttl %ld: %ld hits %ld misses %ld evictions %ld pruned", cap, nk, def, hits, miss, evict, pruned);
    vh_evals(1); if (hits && (evict || expired || pruned)) vh_distinct(h);
}

/* ---- threads: one writer per key, any readers ---- */
static uint64_t started[NKEY], done[NKEY], dead[NKEY];   /* dead: newest version known invalidated, 0 while a put is under way */
typedef struct { mcp_resource_cache_t* C; mcp_object_pool_t* P; int id, nt, nk, ops, roomy; uint64_t seed; long hits, miss; uint64_t h; } ta;
static void* thr(void* p) {
    ta* a = p; vh_rng r; vh_rng_seed(&r, a->seed); uint64_t ver[NKEY] = { 0 };
    for (int i = 0; i < a->ops; i++) {
        int k = (int)vh_below(&r, (uint64_t)a->nk), mine = k % a->nt == a->id, op = (int)vh_below(&r, 100);
        if (mine && op < 45) {
            uint64_t v = ++ver[k];
            __atomic_store_n(&started[k], v, __ATOMIC_RELAXED);
            if (do_put(a->C, a->P, kn[k], k, v, vh_chance(&r, 30) ? 2 : -1)) { vh_viol("put", "put refused"); return NULL; }
            __atomic_store_n(&done[k], v, __ATOMIC_RELAXED);
        } else if (mine && op < 55) {
            mcp_cache_invalidate(a->C, kn[k]);
            __atomic_store_n(&dead[k], ver[k], __ATOMIC_RELAXED);
            mcp_content_item_t** c = NULL; size_t n = 0;
            if (mcp_cache_get(a->C, kn[k], a->P, &c, &n) == 0) { vh_viol("invalidated", "found right after invalidation by the only writer"); return NULL; }
        } else if (op < 58) mcp_cache_prune_expired(a->C);
        else if (op < 60) __atomic_fetch_add(&vtime, 1, __ATOMIC_RELAXED);
        else {
            uint64_t lo = __atomic_load_n(&done[k], __ATOMIC_RELAXED), dl = __atomic_load_n(&dead[k], __ATOMIC_RELAXED);
            mcp_content_item_t** c = NULL; size_t n = 0;
            int rc = mcp_cache_get(a->C, kn[k], a->P, &c, &n);
            uint64_t hi = __atomic_load_n(&started[k], __ATOMIC_RELAXED);
            if (rc == 0) {
                const char* why; uint64_t v = verify(k, c, n, &why); a->hits++; a->h = vh_hash(&v, 8, a->h);
                if (!v) { vh_viol("content", "thread %d key %d: %s differ from every stored version", a->id, k, why); return NULL; }
                if (v < lo || v > hi) { vh_viol("stale", "key %d: version %lu returned, stored before the lookup %lu, started by its end %lu", k, (unsigned long)v, (unsigned long)lo, (unsigned long)hi); return NULL; }
                if (v <= dl) { vh_viol("invalidated", "key %d: version %lu returned after it was invalidated", k, (unsigned long)v); return NULL; }
                release(a->P, c, n, 1);
            } else {
                a->miss++;
                if (a->roomy && mine && lo && ver[k] != dl) { /* within capacity: only expiry explains a miss */ }
            }
        }
        if (vh_chance(&r, 5)) vh_yield_noise(&r);
    }
    return NULL;
}
static void mt(vh_rng* r) {
    int nt = 2 + (int)vh_below(r, 5), nk = 2 + (int)vh_below(r, 12); size_t cap = 1 + vh_below(r, (uint64_t)nk + 4);
    for (int i = 0; i < nk; i++) { sprintf(kn[i], "res://%d", i); started[i] = done[i] = dead[i] = 0; }
    mcp_object_pool_t* P = mcp_object_pool_create(sizeof(mcp_content_item_t), 8, 0);
    mcp_resource_cache_t* C = mcp_cache_create(cap, 5);
    ta a[8]; pthread_t th[8];
    for (int i = 0; i < nt; i++) { a[i] = (ta){ .C = C, .P = P, .id = i, .nt = nt, .nk = nk, .ops = 250, .seed = vh_next(r), .roomy = cap >= (size_t)nk }; pthread_create(&th[i], NULL, thr, &a[i]); }
    long hits = 0, miss = 0; uint64_t h = 0;
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); hits += a[i].hits; miss += a[i].miss; h = vh_hash(&a[i].h, 8, h); }
    size_t found = 0;
    for (int k = 0; k < nk; k++) { mcp_content_item_t** c = NULL; size_t n = 0; if (mcp_cache_get(C, kn[k], P, &c, &n) == 0) { found++; release(P, c, n, 0); } }
    if (found > cap) vh_viol("capacity", "%zu entries held, capacity %zu", found, cap);
    mcp_cache_destroy(C);
    size_t tot, fr, use, peak; mcp_object_pool_get_stats(P, &tot, &fr, &use, &peak);
    if (!vh_viol_count() && use) vh_viol("leak", "%zu content items still held after the cache is gone", use);
    mcp_object_pool_destroy(P);
    vh_count("mt_hits", hits); vh_count("mt_misses", miss); vh_evals(1); if (hits) vh_distinct(h);
    vh_sample("%d threads, %d keys, capacity %zu: %ld hits %ld misses", nt, nk, cap, hits, miss);
}
int main(int argc, char** argv) {
    vh_init(argc, argv);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i);
        vh_note("case %ld mode %s", i, vh_mode);
        if (!strcmp(vh_mode, "seq")) seq(&r); else mt(&r);
    }
    return vh_finish();
}
