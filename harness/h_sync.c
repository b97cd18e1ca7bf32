/* P10: locks exclude (occupancy monitor and TSan on plainly accessed data), conditions lose no wake-up
 * (conservation of items through a bounded buffer), timed waits honour their deadline. */
#include "vh.h"
#include "mcp_sync.h"
#include "mcp_rwlock.h"
#include "mcp_memory_pool.h"
#include "mcp_log.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>

static uint64_t H; static long acquisitions, waits;
#define MAXT 12

/* ---- exclusion ------------------------------------------------------------------------------ */
enum { MUTEX, RECURSIVE, SPIN, RW, NKIND };
static const char* kname[] = { "mutex", "recursive mutex", "spin lock", "read-write lock" };
static struct { int kind; mcp_mutex_t* m; mcp_spinlock_t* s; mcp_rwlock_t* w; int inside_w, inside_r, maxr; long data[8]; long order_n; unsigned char order[4096]; } G;
static int gn; static long gtotal; static pthread_barrier_t bar;

static void in_write(int me, vh_rng* r) {
    if (__atomic_fetch_add(&G.inside_w, 1, __ATOMIC_RELAXED) != 0) vh_viol("exclusion", "%s: two threads inside the guarded section", kname[G.kind]);
    if (__atomic_load_n(&G.inside_r, __ATOMIC_RELAXED) != 0) vh_viol("exclusion", "%s: a writer inside together with readers", kname[G.kind]);
    long v = G.data[0] + 1;                                  /* plain accesses: TSan and the sum decide */
    for (int i = 0; i < 8; i++) { if (G.data[i] != v - 1) { vh_viol("exclusion", "%s: writer found a half written record", kname[G.kind]); break; } }
    if (vh_chance(r, 10)) vh_yield_noise(r);
    for (int i = 0; i < 8; i++) G.data[i] = v;
    if (G.order_n < 4096) G.order[G.order_n++] = (unsigned char)me;
    __atomic_fetch_sub(&G.inside_w, 1, __ATOMIC_RELAXED);
}
static void in_read(vh_rng* r) {
    int c = __atomic_add_fetch(&G.inside_r, 1, __ATOMIC_RELAXED);
    if (c > __atomic_load_n(&G.maxr, __ATOMIC_RELAXED)) __atomic_store_n(&G.maxr, c, __ATOMIC_RELAXED);
    if (__atomic_load_n(&G.inside_w, __ATOMIC_RELAXED) != 0) vh_viol("exclusion", "%s: a reader inside together with a writer", kname[G.kind]);
    long v = G.data[0];
    if (vh_chance(r, 10)) vh_yield_noise(r);
    for (int i = 1; i < 8; i++) if (G.data[i] != v) { vh_viol("exclusion", "%s: reader saw a half written record", kname[G.kind]); break; }
    __atomic_fetch_sub(&G.inside_r, 1, __ATOMIC_RELAXED);
}
static void* ex_thread(void* a) {
    int me = (int)(intptr_t)a; vh_rng r; vh_rng_seed(&r, vh_seed * 77 + (uint64_t)me * 1001 + H); long wrote = 0;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < gn && !vh_viol_count(); i++) {
        switch (G.kind) {
        case MUTEX: if (mcp_mutex_lock(G.m)) vh_viol("refused", "mutex: lock failed"); in_write(me, &r); wrote++; mcp_mutex_unlock(G.m); break;
        case RECURSIVE: {
            int d = 1 + (int)vh_below(&r, 4);
            for (int k = 0; k < d; k++) if (mcp_mutex_lock(G.m)) vh_viol("refused", "recursive mutex: lock %d failed", k);
            for (int k = d; k > 0; k--) { in_write(me, &r); wrote++; mcp_mutex_unlock(G.m); }     /* still ours until the last unlock */
            break; }
        case SPIN:
            if (vh_chance(&r, 40)) { if (mcp_spinlock_trylock(G.s) != 0) break; } else if (mcp_spinlock_lock(G.s)) vh_viol("refused", "spin lock: lock failed");
            in_write(me, &r); wrote++; mcp_spinlock_unlock(G.s); break;
        default: {
            int t = vh_chance(&r, 40), w = vh_chance(&r, 40);
            if (w) { if (t) { if (!mcp_rwlock_try_write_lock(G.w)) break; } else if (!mcp_rwlock_write_lock(G.w)) vh_viol("refused", "read-write lock: write lock failed"); in_write(me, &r); wrote++; if (!mcp_rwlock_write_unlock(G.w)) vh_viol("refused", "read-write lock: write unlock failed"); }
            else { if (t) { if (!mcp_rwlock_try_read_lock(G.w)) break; } else if (!mcp_rwlock_read_lock(G.w)) vh_viol("refused", "read-write lock: read lock failed"); in_read(&r); if (!mcp_rwlock_read_unlock(G.w)) vh_viol("refused", "read-write lock: read unlock failed"); }
        } }
        if (vh_chance(&r, 5)) vh_yield_noise(&r);
    }
    __atomic_fetch_add(&gtotal, wrote, __ATOMIC_RELAXED);
    return NULL;
}
static void* other_thread(void* a);
static struct { int op, res; } oth;
static int from_other(int op) { pthread_t t; oth.op = op; pthread_create(&t, NULL, other_thread, NULL); pthread_join(t, NULL); return oth.res; }
static void* other_thread(void* a) {     /* what a second thread is told while the first one holds the lock */
    (void)a;
    switch (oth.op) {
    case 0: oth.res = mcp_spinlock_trylock(G.s) == 0; if (oth.res) mcp_spinlock_unlock(G.s); break;
    case 1: oth.res = mcp_rwlock_try_read_lock(G.w); if (oth.res) mcp_rwlock_read_unlock(G.w); break;
    default: oth.res = mcp_rwlock_try_write_lock(G.w); if (oth.res) mcp_rwlock_write_unlock(G.w);
    }
    return NULL;
}
static void try_case(vh_rng* r) {
    int rd = 0, wr = 0, sp = 0;
    for (int k = 0; k < 20 && !vh_viol_count(); k++) {
        int c = (int)vh_below(r, 8); H = vh_hash(&c, sizeof c, H);
        if (c == 0 && !sp) { mcp_spinlock_lock(G.s); sp = 1; } else if (c == 1 && sp) { mcp_spinlock_unlock(G.s); sp = 0; }
        else if (c == 2 && !wr) { if (mcp_rwlock_read_lock(G.w)) rd++; } else if (c == 3 && rd) { mcp_rwlock_read_unlock(G.w); rd--; }
        else if (c == 4 && !rd && !wr) { mcp_rwlock_write_lock(G.w); wr = 1; } else if (c == 5 && wr) { mcp_rwlock_write_unlock(G.w); wr = 0; }
        else {
            int op = (int)vh_below(r, 3), got = from_other(op), want = op == 0 ? !sp : op == 1 ? !wr : !wr && !rd;
            if (got != want) vh_viol("try", "try-%s %s while held (spin %d, readers %d, writer %d)", op == 0 ? "lock of the spin lock" : op == 1 ? "read" : "write", got ? "succeeded" : "failed", sp, rd, wr);
        }
    }
    while (rd--) mcp_rwlock_read_unlock(G.w);
    if (wr) mcp_rwlock_write_unlock(G.w);
    if (sp) mcp_spinlock_unlock(G.s);
}
static void ex_case(vh_rng* r) {
    memset(&G, 0, sizeof G); G.kind = (int)vh_below(r, NKIND); gtotal = 0;
    G.m = G.kind == RECURSIVE ? mcp_recursive_mutex_create() : mcp_mutex_create(); G.s = mcp_spinlock_create(); G.w = mcp_rwlock_create();
    if (!G.m || !G.s || !G.w) { vh_viol("null", "a lock could not be created"); return; }
    if (vh_chance(r, 30)) try_case(r);
    int nt = 2 + (int)vh_below(r, 6); gn = 50 + (int)vh_below(r, 300); pthread_t t[MAXT]; H = vh_hash(&gn, sizeof gn, H + (uint64_t)vh_next(r));
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, ex_thread, (void*)(intptr_t)i);
    for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    if (!vh_viol_count() && G.data[0] != gtotal) vh_viol("exclusion", "%s: %ld guarded updates made, %ld counted", kname[G.kind], gtotal, G.data[0]);
    acquisitions += gtotal; if (G.maxr > 1) vh_count("times readers were inside together", 1);
    H = vh_hash(G.order, (size_t)G.order_n, (uint64_t)G.kind);
    mcp_mutex_destroy(G.m); mcp_spinlock_destroy(G.s); mcp_rwlock_free(G.w);
}

/* ---- wake-ups ------------------------------------------------------------------------------- */
static struct { mcp_mutex_t* m; mcp_cond_t *ne, *nf; int cap, n; long q[64]; long head, put, got; bool done; bool bc, timed; unsigned char seen[1 << 16]; unsigned char order[4096]; int on; } B;
static long per; static int nprod;
static void* producer(void* a) {
    int me = (int)(intptr_t)a; vh_rng r; vh_rng_seed(&r, vh_seed * 31 + (uint64_t)me * 17 + H);
    for (long i = 0; i < per; i++) {
        if (vh_chance(&r, 4)) vh_yield_noise(&r);
        mcp_mutex_lock(B.m);
        while (B.n == B.cap) { __atomic_fetch_add(&waits, 1, __ATOMIC_RELAXED); int e = mcp_cond_wait(B.nf, B.m); if (e) { vh_viol("wait", "wait returned %d", e); break; } }
        B.q[(B.head + B.n) % 64] = me * per + i; B.n++; B.put++;
        int s = B.bc ? mcp_cond_broadcast(B.ne) : mcp_cond_signal(B.ne); if (s) vh_viol("wait", "signal returned %d", s);
        mcp_mutex_unlock(B.m);
    }
    return NULL;
}
static void* consumer(void* a) {
    int me = (int)(intptr_t)a; vh_rng r; vh_rng_seed(&r, vh_seed * 37 + (uint64_t)me * 19 + H);
    for (;;) {
        mcp_mutex_lock(B.m);
        while (B.n == 0 && !B.done) {
            __atomic_fetch_add(&waits, 1, __ATOMIC_RELAXED);
            int e = B.timed ? mcp_cond_timedwait(B.ne, B.m, 60000 + (uint32_t)vh_below(&r, 4000000000u)) : mcp_cond_wait(B.ne, B.m);
            if (e) { vh_viol("wait", B.timed ? "timed wait of a minute or more returned %d at once" : "wait returned %d", e); B.done = true; break; }
        }
        if (B.n == 0) { mcp_mutex_unlock(B.m); return NULL; }
        long v = B.q[B.head]; B.head = (B.head + 1) % 64; B.n--; B.got++;
        if (B.seen[v]++) vh_viol("twice", "item %ld came out twice", v);
        if (B.on < 4096) B.order[B.on++] = (unsigned char)me;
        if (B.got == per * nprod) { B.done = true; mcp_cond_broadcast(B.ne); }
        if (B.bc) mcp_cond_broadcast(B.nf); else mcp_cond_signal(B.nf);
        mcp_mutex_unlock(B.m);
        if (vh_chance(&r, 4)) vh_yield_noise(&r);
    }
}
static void wake_case(vh_rng* r) {
    memset(&B, 0, sizeof B); B.m = vh_chance(r, 20) ? mcp_recursive_mutex_create() : mcp_mutex_create(); B.ne = mcp_cond_create(); B.nf = mcp_cond_create();
    B.cap = 1 + (int)vh_below(r, vh_chance(r, 50) ? 3 : 64); B.bc = vh_chance(r, 40); B.timed = vh_chance(r, 50);
    nprod = 1 + (int)vh_below(r, 4); int nc = 1 + (int)vh_below(r, 4); per = 100 + (long)vh_below(r, 600); pthread_t t[MAXT]; H = vh_next(r);
    for (int i = 0; i < nprod; i++) pthread_create(&t[i], NULL, producer, (void*)(intptr_t)i);
    for (int i = 0; i < nc; i++) pthread_create(&t[nprod + i], NULL, consumer, (void*)(intptr_t)i);
    for (int i = 0; i < nprod + nc; i++) pthread_join(t[i], NULL);
    if (!vh_viol_count() && B.got != per * nprod) vh_viol("lost", "%ld items put in, %ld came out", per * nprod, B.got);
    acquisitions += B.put + B.got; H = vh_hash(B.order, (size_t)B.on, 0);
    mcp_cond_destroy(B.ne); mcp_cond_destroy(B.nf); mcp_mutex_destroy(B.m);
}

/* ---- deadlines ------------------------------------------------------------------------------ */
typedef struct { uint32_t ms; int res; double took; } tw;
static double now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec * 1e3 + (double)t.tv_nsec / 1e6; }
static void* timed_thread(void* a) {
    tw* w = a; mcp_mutex_t* m = mcp_mutex_create(); mcp_cond_t* c = mcp_cond_create();
    mcp_mutex_lock(m);
    double t0 = now_ms(), left;
    do { left = (double)w->ms - (now_ms() - t0); w->res = left > 0 ? mcp_cond_timedwait(c, m, (uint32_t)(left + 0.999)) : -2; w->took = now_ms() - t0; } while (w->res == 0);   /* spurious wake-ups */
    mcp_mutex_unlock(m); mcp_cond_destroy(c); mcp_mutex_destroy(m); return NULL;
}
static struct { mcp_mutex_t* m; mcp_cond_t* c; bool go; } S;
static void* late_signal(void* a) { vh_usleep((long)(intptr_t)a); mcp_mutex_lock(S.m); S.go = true; mcp_cond_signal(S.c); mcp_mutex_unlock(S.m); return NULL; }
static void timed_case(vh_rng* r) {
    tw w[48]; pthread_t t[48]; int n = 48;
    for (int i = 0; i < n; i++) { w[i].ms = i == 0 ? 1 : 1 + (uint32_t)vh_below(r, vh_chance(r, 50) ? 100 : 1300); H = vh_hash(&w[i].ms, 4, H); pthread_create(&t[i], NULL, timed_thread, &w[i]); }
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < n; i++) {
        if (w[i].res != -2) { vh_viol("deadline", "timed wait of %u ms without a signal returned %d", w[i].ms, w[i].res); break; }
        if (w[i].took < (double)w[i].ms - 0.5) { vh_viol("deadline", "timed wait of %u ms timed out after %.1f ms", w[i].ms, w[i].took); break; }
        if (w[i].took > (double)w[i].ms + 20000) { vh_viol("deadline", "timed wait of %u ms timed out only after %.1f ms", w[i].ms, w[i].took); break; }
        waits++;
    }
    static const uint32_t big[] = { 10000, 60000, 3600000, 0x7fffffff, 0x80000000u, 0xfffffffeu };
    for (size_t i = 0; i < 6 && !vh_viol_count(); i++) {
        S.m = mcp_mutex_create(); S.c = mcp_cond_create(); S.go = false; pthread_t th; int e = 0;
        pthread_create(&th, NULL, late_signal, (void*)(intptr_t)vh_below(r, 4000));
        mcp_mutex_lock(S.m); while (!S.go && !e) e = mcp_cond_timedwait(S.c, S.m, big[i]); mcp_mutex_unlock(S.m);
        pthread_join(th, NULL);
        if (e) vh_viol("deadline", "timed wait of %u ms signalled at once returned %d", big[i], e);
        mcp_mutex_destroy(S.m); mcp_cond_destroy(S.c); waits++;
    }
    /* a condition nobody waits on remembers nothing: a later wait still takes its time */
    mcp_mutex_t* m = mcp_mutex_create(); mcp_cond_t* c = mcp_cond_create();
    mcp_mutex_lock(m); mcp_cond_signal(c); mcp_cond_broadcast(c); double t0 = now_ms(); int e = mcp_cond_timedwait(c, m, 30); double d = now_ms() - t0; mcp_mutex_unlock(m);
    if (e == -2 && d < 29.5) vh_viol("deadline", "timed wait of 30 ms timed out after %.1f ms", d);
    if (e != 0 && e != -2) vh_viol("deadline", "timed wait returned %d", e);
    mcp_cond_destroy(c); mcp_mutex_destroy(m);
}

/* ---- thread-local values and threads ----------------------------------------------------------- */
static mcp_tls_key_t* tk[3]; static long tdtor; static bool tlsbad;
static void td(void* p) { __atomic_fetch_add(&tdtor, (long)(intptr_t)p & 1, __ATOMIC_RELAXED); }
static void* tls_thread(void* a) {
    vh_rng r; vh_rng_seed(&r, (uint64_t)(intptr_t)a * 3 + vh_seed); void* mine[3] = { 0 };
    for (int i = 0; i < 200; i++) {
        int k = (int)vh_below(&r, 3);
        if (vh_chance(&r, 50)) { mine[k] = (void*)(intptr_t)((vh_next(&r) >> 8) | 1); if (mcp_tls_set(tk[k], mine[k])) __atomic_store_n(&tlsbad, true, __ATOMIC_RELAXED); }
        else if (mcp_tls_get(tk[k]) != mine[k]) __atomic_store_n(&tlsbad, true, __ATOMIC_RELAXED);
        if (vh_chance(&r, 3)) mcp_thread_yield();
    }
    for (int k = 0; k < 3; k++) { mine[k] = (void*)(intptr_t)1; mcp_tls_set(tk[k], mine[k]); }
    return (void*)((intptr_t)a + 1);
}
static void tls_case(vh_rng* r) {
    int n = 2 + (int)vh_below(r, 6); mcp_thread_t t[8]; tdtor = 0; H = vh_next(r);
    tk[0] = mcp_tls_key_create(td); tk[1] = mcp_tls_key_create(NULL); tk[2] = mcp_tls_key_create(td);
    for (int i = 0; i < n; i++) if (mcp_thread_create(&t[i], tls_thread, (void*)(intptr_t)(i * 10))) vh_viol("thread", "a thread could not be created");
    for (int i = 0; i < n; i++) { void* rv = NULL; if (mcp_thread_join(t[i], &rv) || rv != (void*)(intptr_t)(i * 10 + 1)) vh_viol("thread", "joined thread %d gave %p", i, rv); }
    if (tlsbad) vh_viol("tls", "a thread did not get its own thread-local value back");
    if (tdtor != 2L * n) vh_viol("tls", "%ld thread-local destructors ran for %d exited threads with two keys each", tdtor, n);
    for (int k = 0; k < 3; k++) mcp_tls_key_destroy(tk[k]);
    acquisitions += n * 200;
}

int main(int argc, char** argv) {
    vh_init(argc, argv);
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    for (long c = 0; c < vh_cases && !vh_viol_count(); c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)c); vh_note("case %ld", c); H = 0;
        bool sys = vh_chance(&r, 40); if (sys) mcp_memory_pool_system_init(4, 4, 4);
        if (!strcmp(vh_mode, "excl")) ex_case(&r); else if (!strcmp(vh_mode, "wake")) wake_case(&r); else if (!strcmp(vh_mode, "timed")) timed_case(&r); else tls_case(&r);
        if (sys) mcp_memory_pool_system_cleanup();
        vh_evals(1); vh_distinct(H);
        if (c < 2) vh_sample("%s case %ld: order hash %016llx", vh_mode, c, (unsigned long long)H);
    }
    vh_count("lock acquisitions and hand-overs", acquisitions); vh_count("waits", waits);
    return vh_finish();
}
