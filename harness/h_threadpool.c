/* P09: every accepted task runs exactly once; refused ones never; wait/destroy return only after them. */
#include "vh.h"
#include "mcp_thread_pool.h"
#include "mcp_log.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#define MAXT 20000
typedef struct { int runs; int done; int accepted; int kind; int us; int id; int parent; struct ctx* c; } task_t;
typedef struct ctx {
    mcp_thread_pool_t* pool;
    task_t* t; int n;              /* slots handed out */
    int destroyed;                 /* set after destroy returned */
    int order_n; uint32_t order[64];
    int running, maxrun;
    int tno, cap;
} ctx_t;
static __thread vh_rng trng; static __thread int trng_ok;
static vh_rng* my_rng(uint64_t s) { if (!trng_ok) { vh_rng_seed(&trng, s); trng_ok = 1; } return &trng; }
static int slot(ctx_t* c) { int i = __atomic_fetch_add(&c->n, 1, __ATOMIC_RELAXED); return i < MAXT ? i : -1; }
static void run(void* a);
static void submit(ctx_t* c, int kind, int us, int parent) {
    int i = slot(c);
    if (i < 0) return;
    task_t* t = &c->t[i];
    t->kind = kind; t->us = us; t->id = i; t->c = c; t->parent = parent;
    int r = mcp_thread_pool_add_task(c->pool, run, t);
    __atomic_store_n(&t->accepted, r == 0 ? 1 : 2, __ATOMIC_RELAXED);
    if (r != 0 && r != -1) vh_viol("add-result", "mcp_thread_pool_add_task returned %d", r);
}
static void run(void* a) {
    task_t* t = a; ctx_t* c = t->c;
    if (__atomic_load_n(&c->destroyed, __ATOMIC_RELAXED)) vh_viol("run-after-destroy", "task %d ran after mcp_thread_pool_destroy returned", t->id);
    int n = __atomic_add_fetch(&t->runs, 1, __ATOMIC_RELAXED);
    if (n > 1) vh_viol("ran-twice", "task %d ran %d times", t->id, n);
    int o = __atomic_fetch_add(&c->order_n, 1, __ATOMIC_RELAXED);
    if (o < 64) __atomic_store_n(&c->order[o], (uint32_t)t->id, __ATOMIC_RELAXED);
    int r = __atomic_add_fetch(&c->running, 1, __ATOMIC_RELAXED);
    if (r > c->tno) vh_viol("too-many-running", "%d tasks at once on %d threads", r, c->tno);
    int m = __atomic_load_n(&c->maxrun, __ATOMIC_RELAXED);
    if (r > m) __atomic_store_n(&c->maxrun, r, __ATOMIC_RELAXED);
    if (t->us) vh_usleep(t->us);
    if (t->kind > 0) submit(c, t->kind - 1, 0, t->id);
    __atomic_sub_fetch(&c->running, 1, __ATOMIC_RELAXED);
    __atomic_store_n(&t->done, 1, __ATOMIC_RELAXED);
}
typedef struct { ctx_t* c; uint64_t seed; int n, slow, nest, wait, pace, kind; int* stop; } sub_t;
static void* submitter(void* a) {
    sub_t* s = a; ctx_t* c = s->c; vh_rng r; vh_rng_seed(&r, s->seed);
    int* mine = malloc(sizeof(int) * (s->n + 1)); int k = 0;
    for (int i = 0; i < s->n; i++) {
        int us = vh_chance(&r, s->slow) ? (int)vh_below(&r, 400) : 0;
        int id = slot(c);
        if (id < 0) break;
        task_t* t = &c->t[id];
        t->kind = vh_chance(&r, s->nest) ? 1 + (int)vh_below(&r, 2) : 0; t->us = us; t->id = id; t->c = c; t->parent = -1;
        int rc = mcp_thread_pool_add_task(c->pool, run, t);
        __atomic_store_n(&t->accepted, rc == 0 ? 1 : 2, __ATOMIC_RELAXED);
        if (rc == 0) mine[k++] = id;
        else if (s->pace) vh_usleep(200);
        vh_yield_noise(&r);
        if (s->wait && vh_chance(&r, 2)) {
            uint64_t t0 = vh_now_us();
            unsigned to = vh_chance(&r, 30) ? 1 + (unsigned)vh_below(&r, 20) : 30000;
            int w = mcp_thread_pool_wait(c->pool, to);
            uint64_t el = vh_now_us() - t0;
            vh_count("waits", 1);
            if (w == 0) {
                for (int j = 0; j < k; j++) if (!__atomic_load_n(&c->t[mine[j]].done, __ATOMIC_RELAXED)) {
                    vh_viol("wait-early", "mcp_thread_pool_wait returned 0 while task %d accepted before it had not finished (threads=%d queue=%d)", mine[j], c->tno, c->cap); break;
                }
            } else if (w == -1 && el + 2000 < (uint64_t)to * 1000) vh_viol("wait-timeout-early", "wait(%u ms) gave up after %llu us", to, (unsigned long long)el);
        }
    }
    free(mine);
    return NULL;
}
static void* resizer(void* a) {
    sub_t* s = a; vh_rng r; vh_rng_seed(&r, s->seed);
    while (!__atomic_load_n(s->stop, __ATOMIC_RELAXED)) {
        size_t n = 1 + vh_below(&r, (uint64_t)s->c->tno + 2);
        if (mcp_thread_pool_resize(s->c->pool, n) != 0) vh_viol("resize", "resize to %zu failed on a live pool", n);
        size_t g = mcp_thread_pool_get_thread_count(s->c->pool);
        if (g < 1 || g > (size_t)s->c->tno) vh_viol("thread-count", "thread count %zu outside 1..%d", g, s->c->tno);
        size_t su, co, fa, ac;
        if (mcp_thread_pool_get_stats(s->c->pool, &su, &co, &fa, &ac) != 0) vh_viol("stats", "get_stats failed");
        vh_usleep((long)vh_below(&r, 300));
        vh_count("resizes", 1);
    }
    return NULL;
}
static void one(long k) {
    vh_rng r; vh_rng_seed(&r, vh_seed * 1000003ULL + (uint64_t)k);
    ctx_t c; memset(&c, 0, sizeof c);
    c.t = calloc(MAXT, sizeof *c.t);
    c.tno = 1 + (int)vh_below(&r, 8); c.cap = 1 << vh_below(&r, 9);
    if (vh_chance(&r, 20)) c.cap = 1 + (int)vh_below(&r, 40);
    c.pool = mcp_thread_pool_create((size_t)c.tno, (size_t)c.cap);
    if (!c.pool) { vh_viol("create", "create(%d,%d) failed", c.tno, c.cap); free(c.t); return; }
    int ns = 1 + (int)vh_below(&r, 5), rs = vh_chance(&r, 50), stop = 0;
    int per = vh_chance(&r, 20) ? 600 : 20 + (int)vh_below(&r, 150);
    sub_t s[6], rz; pthread_t th[6], rt;
    int slow = (int)vh_below(&r, 30), nest = vh_chance(&r, 50) ? (int)vh_below(&r, 40) : 0, wt = vh_chance(&r, 50), pace = vh_chance(&r, 60);
    for (int i = 0; i < ns; i++) { s[i] = (sub_t){ &c, vh_next(&r), per, slow, nest, wt, pace, 0, &stop }; pthread_create(&th[i], 0, submitter, &s[i]); }
    if (rs) { rz = (sub_t){ &c, vh_next(&r), 0, 0, 0, 0, 0, 0, &stop }; pthread_create(&rt, 0, resizer, &rz); }
    for (int i = 0; i < ns; i++) pthread_join(th[i], 0);
    __atomic_store_n(&stop, 1, __ATOMIC_RELAXED);
    if (rs) pthread_join(rt, 0);
    int how = (int)vh_below(&r, 3);
    if (how == 0) {          /* drain first: all done and the statistics agree */
        int w = mcp_thread_pool_wait(c.pool, how == 0 && vh_chance(&r, 50) ? 0 : 60000);
        if (w != 0) vh_viol("lost-task", "after 60 s not every accepted task had run");
        int lim = c.n < MAXT ? c.n : MAXT; size_t acc = 0, ref = 0;
        for (int i = 0; i < lim; i++) {
            int a = __atomic_load_n(&c.t[i].accepted, __ATOMIC_RELAXED);
            if (a == 1) { acc++; if (!__atomic_load_n(&c.t[i].done, __ATOMIC_RELAXED)) { vh_viol("wait-early", "wait returned 0 with task %d unfinished", i); break; } }
            else if (a == 2) ref++;
        }
        size_t su, co, fa, ac;
        mcp_thread_pool_get_stats(c.pool, &su, &co, &fa, &ac);
        if (co != acc || su < acc) vh_viol("stats", "accepted %zu tasks, pool reports submitted=%zu completed=%zu", acc, su, co);
    }
    if (mcp_thread_pool_destroy(c.pool) != 0) vh_viol("destroy", "destroy failed");
    __atomic_store_n(&c.destroyed, 1, __ATOMIC_RELAXED);
    int lim = c.n < MAXT ? c.n : MAXT, acc = 0, ref = 0;
    for (int i = 0; i < lim; i++) {
        int a = __atomic_load_n(&c.t[i].accepted, __ATOMIC_RELAXED), n = __atomic_load_n(&c.t[i].runs, __ATOMIC_RELAXED);
        if (a == 1) {
            acc++;
            if (n == 0) { vh_viol("lost-task", "accepted task %d of %d was never run (threads=%d queue=%d submitters=%d resizing=%d)", i, lim, c.tno, c.cap, ns, rs); break; }
            if (!__atomic_load_n(&c.t[i].done, __ATOMIC_RELAXED)) vh_viol("destroy-early", "destroy returned while task %d was running", i);
        } else { ref++; if (n) vh_viol("refused-ran", "refused task %d ran", i); }
    }
    if (vh_chance(&r, 30)) vh_usleep(1500);
    vh_evals(1);
    vh_count("tasks_accepted", acc); vh_count("tasks_refused", ref); vh_count("max_concurrency", c.maxrun);
    uint64_t h = vh_hash(c.order, sizeof(uint32_t) * (size_t)(c.order_n < 64 ? c.order_n : 64), 0);
    if (acc) vh_distinct(h);
    if (k < 3) vh_sample("threads=%d queue=%d submitters=%d resizing=%d accepted=%d refused=%d first executed: %u %u %u %u", c.tno, c.cap, ns, rs, acc, ref, c.order[0], c.order[1], c.order[2], c.order[3]);
    free(c.t);
}
int main(int argc, char** argv) {
    vh_init(argc, argv);
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    for (long k = 0; k < vh_cases && vh_viol_count() < 5; k++) one(k);
    return vh_finish();
}
