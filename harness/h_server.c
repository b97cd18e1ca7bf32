// The server's message handling on an in-process transport, from one or many threads.
// USE: vsrv
#include "vsrv.h"
#include "mcp_performance_metrics.h"
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <stdatomic.h>
#include <dirent.h>
#include <unistd.h>
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP
#include <malloc.h>
#define HEAP() (size_t)mallinfo2().uordblks
#endif
static uint64_t msg_sig(const vs_msg* m) { uint64_t h = (uint64_t)(m->batch * 2 + m->garbage + 1); for (int i = 0; i < m->n; i++) { int k[3] = { m->e[i].kind, m->e[i].auth, m->e[i].uri }; h = vh_hash(k, sizeof k, h); if (m->e[i].args) { uint64_t c = (uint64_t)m->e[i].args->t * 7 + m->e[i].args->cnt; h = vh_hash(&c, 8, h); } } return h; }
static long kinds[VS_KINDS], messages, batches, garbled;
static void tally(const vs_msg* m) { messages++; batches += m->batch; garbled += m->garbage; for (int i = 0; i < m->n; i++) kinds[m->e[i].kind]++; }
static void report(void) { vh_count("messages", messages); vh_count("batches", batches); vh_count("unreadable messages", garbled); for (int k = 0; k < VS_KINDS; k++) { char b[80]; snprintf(b, sizeof b, "%s", vs_kind_name[k]); vh_count(b, kinds[k]); } }
static char keybuf[1100];
static const char* gen_key(vh_rng* r) { size_t n = vh_chance(r, 5) ? 900 + vh_below(r, 124) : 1 + vh_below(r, 30); for (size_t i = 0; i < n; i++) keybuf[i] = (char)(vh_chance(r, 10) ? "\"\\ '{}/"[vh_below(r, 7)] : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789-_"[vh_below(r, 47)]); keybuf[n] = 0; return keybuf; }
/* one message to the server and through the oracle */
static void one(vs_world* w, vh_rng* r, int garbage_ok, int alone) {
    vs_msg m; vs_gen(w, r, &m, garbage_ok);
    while (w->limit && m.text.n + 1 > w->limit) { vs_msg_free(&m); vs_gen(w, r, &m, garbage_ok); }
    int err = 0;
    /* with or without a terminating NUL counted in, always from an exactly sized buffer */
    size_t n = m.text.n + (size_t)vh_below(r, 2); char* buf = malloc(n); memcpy(buf, m.text.p, n);
    vs_forget_nonces(w, &m);
    char* resp = vs_send(w, buf, n, &err);
    free(buf);
    vs_check(w, &m, resp, resp ? strlen(resp) : 0, alone);
    if (alone) { tally(&m); vh_evals(1); vh_distinct(msg_sig(&m)); if (messages < 4) vh_sample("%.300s => %.300s", m.text.p, resp ? resp : "(no answer)"); }
    free(resp); vs_msg_free(&m);
}
static vs_world* open_world(vh_rng* r, vs_cfg* c) {
    memset(c, 0, sizeof *c);
    c->cache = 1 + (int)vh_below(r, 24); c->thread_pool = 1 + (int)vh_below(r, 3);
    if (vh_chance(r, 15)) c->no_tools = 1; else if (vh_chance(r, 15)) c->no_res = 1;
    if (vh_chance(r, 20)) c->prewarm = 1 + (int)vh_below(r, 5);
    return NULL;
}
static void run_msgs(int auth) {
    for (long i = 0; i < vh_cases; i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i);
        vs_cfg c; open_world(&r, &c);
        if (auth) c.key = gen_key(&r);
        vs_world* w = vs_open(&r, &c, NULL);
        int n = 20 + (int)vh_below(&r, 60);
        for (int k = 0; k < n && !vh_viol_count(); k++) one(w, &r, 1, 1);
        vs_close(w);
        if (vh_viol_count()) break;
    }
    vs_thread_done(); report();
}
/* hostile bytes, each followed by ordinary traffic that must still be served */
static void mutate(vh_rng* r, sb* b) {
    int k = 1 + (int)vh_below(r, 6);
    static const char* tok[] = { "{", "}", "[", "]", "\"", ":", ",", "\\", "\\u", "\\ud800", "\\u0000", "null", "true", "-", "1e999", "-1e999", "1e308", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-1", "0.5", "4294967296", "\"method\"", "\"params\"", "\"id\"", "\"result\"", "\"error\"", "\"code\"", "\"message\"", "\"name\"", "\"uri\"", "\"arguments\"", "\"call_tool\"", "\"read_resource\"", "\"tpl0://item//view\"", "\"tpl0://item/{id}/view\"", "\"ping\"", "\"jsonrpc\"", "\"2.0\"", "\xff\xfe", "\xc0\x80", "{}", "[]", "\"\"", "\"apiKey\"", "1e19", "2147483648", "-2147483649" };
    for (; k > 0; k--) {
        size_t at = b->n ? vh_below(r, b->n) : 0;
        switch (vh_below(r, 8)) {
        case 0: if (b->n) b->p[at] ^= (char)(1 << vh_below(r, 8)); break;
        case 1: if (b->n) b->p[at] = (char)vh_next(r); break;
        case 2: { size_t l = vh_below(r, 20); if (at + l > b->n) l = b->n - at; memmove(b->p + at, b->p + at + l, b->n - at - l); b->n -= l; break; }
        case 3: case 4: { const char* t = tok[vh_below(r, sizeof tok / sizeof *tok)]; size_t l = strlen(t); sb c = {0}; sb_add(&c, b->p ? b->p : "", at); sb_add(&c, t, l); size_t skip = vh_chance(r, 50) ? vh_below(r, 12) : 0; if (at + skip < b->n) sb_add(&c, b->p + at + skip, b->n - at - skip); sb_free(b); *b = c; break; }
        case 5: { size_t l = vh_below(r, 60); if (at + l > b->n) l = b->n - at; sb c = {0}; sb_add(&c, b->p ? b->p : "", at + l); sb_add(&c, b->p ? b->p + at : "", b->n - at); sb_free(b); *b = c; break; }
        case 6: if (vh_chance(r, 20)) b->n = at; break;
        default: { if (!vh_chance(r, 25)) break; size_t l = vh_below(r, 3000); char ch = "[{\"\\ 0-,a\xff"[vh_below(r, 10)]; sb c = {0}; sb_add(&c, b->p ? b->p : "", at); for (size_t i = 0; i < l; i++) sb_c(&c, ch); if (b->n > at) sb_add(&c, b->p + at, b->n - at); sb_free(b); *b = c; }
        }
    }
    if (!b->p) sb_s(b, "x");
    if (!b->n) sb_c(b, 'x');
}
static void nest(vh_rng* r, sb* b) {
    size_t d = vh_chance(r, 50) ? 90 + vh_below(r, 30) : vh_below(r, 60000);
    int obj = vh_chance(r, 40);
    int where = (int)vh_below(r, 3);
    if (where) sb_s(b, where == 1 ? "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"call_tool\",\"params\":{\"name\":\"x\",\"arguments\":" : "[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"ping\",\"params\":");
    for (size_t i = 0; i < d; i++) sb_s(b, obj ? "{\"a\":" : "[");
    if (obj) sb_c(b, '1');
    if (vh_chance(r, 70)) for (size_t i = 0; i < d; i++) sb_c(b, obj ? '}' : ']');
    if (where && vh_chance(r, 70)) sb_s(b, where == 1 ? "}}" : "}]");
}
static void run_hostile(void) {
    vs_world* w = NULL; vh_rng r; long bad = 0, refused = 0;
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        if (i % 2000 == 0) {
            if (w) vs_close(w);
            vh_rng_seed(&r, vh_seed * 77777 + (uint64_t)i);
            vs_cfg c; open_world(&r, &c); c.max_message = vh_chance(&r, 50) ? 0 : 20000 + vh_below(&r, 100000); if (vh_chance(&r, 25)) c.key = gen_key(&r);
            w = vs_open(&r, &c, NULL);
        }
        sb b = {0};
        if (vh_chance(&r, 8)) { size_t n = 1 + vh_below(&r, vh_chance(&r, 90) ? 200 : 20000); for (size_t k = 0; k < n; k++) sb_c(&b, (char)vh_next(&r)); }
        else if (vh_chance(&r, 4)) nest(&r, &b);
        else { vs_msg m; vs_gen(w, &r, &m, 0); b = m.text; memset(&m.text, 0, sizeof m.text); vs_msg_free(&m); mutate(&r, &b); }
        char* buf = malloc(b.n); memcpy(buf, b.p, b.n); int err = 0;
        char* resp = vs_send(w, buf, b.n, &err); free(buf);
        bad++; refused += err != 0;
        vh_distinct(vh_hash(b.p, b.n, 3));
        free(resp); sb_free(&b); vh_evals(1);
        if (i % 3 == 0) one(w, &r, 0, 1);
    }
    if (w) vs_close(w);
    vs_thread_done(); report();
    vh_count("hostile messages", bad); vh_count("hostile messages refused as a whole", refused);
}
/* many threads, one server */
typedef struct { vs_world* w; uint64_t seed; int n; uint64_t order; long msgs; pthread_barrier_t* bar; _Atomic(int)* stop; _Atomic(long)* served; } targ;
static _Atomic(uint64_t) ticket;
static void* mt_thread(void* p) {
    targ* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < a->n; i++) { one(a->w, &r, 1, 0); a->order = vh_hash(&a->order, 8, atomic_fetch_add_explicit(&ticket, 1, memory_order_relaxed)); a->msgs++; vh_yield_noise(&r); }
    vs_thread_done();
    return NULL;
}
static void run_mt(void) {
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 424243 + (uint64_t)i);
        vs_cfg c; open_world(&r, &c); c.slow_us = vh_chance(&r, 30) ? 300 : 0; if (vh_chance(&r, 20)) c.key = gen_key(&r);
        if (vh_chance(&r, 60)) c.cache = 3;
        vs_world* w = vs_open(&r, &c, NULL);
        int nt = 2 + (int)vh_below(&r, 6); pthread_t t[8]; targ a[8]; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, (unsigned)nt);
        long tb = w->tool_calls; (void)tb;
        for (int k = 0; k < nt; k++) { memset(&a[k], 0, sizeof a[k]); a[k].w = w; a[k].seed = vh_next(&r); a[k].n = 25; a[k].bar = &bar; pthread_create(&t[k], NULL, mt_thread, &a[k]); }
        uint64_t o = 1; long msgs = 0;
        for (int k = 0; k < nt; k++) { pthread_join(t[k], NULL); o = vh_hash(&a[k].order, 8, o); msgs += a[k].msgs; }
        pthread_barrier_destroy(&bar);
        vs_close(w); vh_evals(1); vh_distinct(o); vh_count("messages processed concurrently", msgs); vh_count("threads", nt);
        if (i < 3) vh_sample("%d threads x 25 messages, cache of %d, interleaving %llx", nt, c.cache, (unsigned long long)o);
    }
}
/* starting, loading and stopping */
static int nfds(void) { DIR* d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static int nthr(void) { DIR* d = opendir("/proc/self/task"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void* stop_thread(void* p) {
    targ* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < 400; i++) {
        vs_msg m; vs_gen(a->w, &r, &m, 1); int err = 0;
        int stopped_before = atomic_load(a->stop);
        char* resp = vs_send(a->w, m.text.p, m.text.n, &err);
        if (err == MCP_ERROR_SERVER_SHUTTING_DOWN) { if (resp) vh_viol("stop:answer-and-refusal", "refused yet answered"); vs_msg_free(&m); break; }
        if (stopped_before) vh_viol("stop:served-after", "a message was accepted after the stop had returned: %.200s", m.text.p);
        vs_check(a->w, &m, resp, resp ? strlen(resp) : 0, 0);
        a->msgs++; free(resp); vs_msg_free(&m);
    }
    vs_thread_done();
    return NULL;
}
static void run_stop(void) {
    int fd0 = -1, th0 = -1;
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 990017 + (uint64_t)i);
        int ns = 1 + (int)vh_below(&r, 2); vs_world* w[2]; vs_cfg c[2];
        for (int s = 0; s < ns; s++) { open_world(&r, &c[s]); c[s].slow_us = vh_chance(&r, 50) ? 4000 : 200; c[s].grace_ms = 20000; w[s] = vs_open(&r, &c[s], NULL); }
        int nt = 1 + (int)vh_below(&r, 6); pthread_t t[8]; targ a[8]; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, (unsigned)nt + 1); _Atomic(int) stop = 0;
        for (int k = 0; k < nt; k++) { memset(&a[k], 0, sizeof a[k]); a[k].w = w[0]; a[k].seed = vh_next(&r); a[k].bar = &bar; a[k].stop = &stop; pthread_create(&t[k], NULL, stop_thread, &a[k]); }
        pthread_barrier_wait(&bar);
        vh_usleep((long)vh_below(&r, vh_chance(&r, 50) ? 300 : 8000));
        uint64_t t0 = vh_now_us();
        if (mcp_server_stop(w[0]->srv) != 0) vh_viol("stop:failed", "stop reports an error");
        uint64_t took = vh_now_us() - t0;
        int inside = atomic_load(&w[0]->in_handler);
        atomic_store(&stop, 1);
        if (inside) vh_viol("stop:handler-running", "%d handlers still running after stop returned (grace period 20 s, stop took %llu ms)", inside, (unsigned long long)took / 1000);
        if (took > 15000000) vh_viol("stop:slow", "stop took %llu ms although handlers take at most 4 ms", (unsigned long long)took / 1000);
        uint64_t o = took / 1000; long msgs = 0;
        for (int k = 0; k < nt; k++) { pthread_join(t[k], NULL); o = vh_hash(&a[k].msgs, sizeof(long), o); msgs += a[k].msgs; }
        pthread_barrier_destroy(&bar);
        if (vh_chance(&r, 50) && mcp_server_stop(w[0]->srv) != 0) vh_viol("stop:twice", "second stop reports an error");
        if (ns == 2) { int k = 3; while (k--) one(w[1], &r, 1, 1); }
        vs_close(w[0]);
        if (ns == 2) { int k = 8; while (k--) one(w[1], &r, 1, 1); vs_close(w[1]); }
        vh_evals(1); if (msgs) vh_distinct(o); vh_count("messages before the stop", msgs);
        if (i < 3) vh_sample("%d servers, %d threads, stop after %ld messages took %llu us", ns, nt, msgs, (unsigned long long)took);
        if (i == 3) { fd0 = nfds(); th0 = nthr(); }
        if (i > 3) { int f = nfds(), h = nthr(); for (int k = 0; k < 200 && h > th0; k++) { vh_usleep(5000); h = nthr(); } if (f > fd0) vh_viol("stop:descriptors", "%d descriptors open, %d before", f, fd0); if (h > th0) vh_viol("stop:threads", "%d threads left, %d before", h, th0); }
    }
    vs_thread_done(); report();
}
/* a server with a limit on requests, and with messages that are too long: refused ones leave no trace */
typedef struct { vs_world* w; pthread_barrier_t* bar; int n, id; long served, refused, toolong; uint64_t order; } larg;
static void* limit_thread(void* p) {
    larg* a = p; char b[400]; int e; char* big = calloc(1, a->w->limit + 50); memset(big, ' ', a->w->limit + 49);
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < a->n; i++) {
        long id = a->id * 1000 + i; e = 0;
        int len = sprintf(b, "{\"jsonrpc\":\"2.0\",\"id\":%ld,\"method\":\"ping\"}", id), long_one = i % 7 == 3;
        if (long_one) memcpy(big, b, (size_t)len);
        char* resp = vs_send(a->w, long_one ? big : b, long_one ? a->w->limit + 1 + (size_t)(i % 40) : (size_t)len, &e);
        a->order = vh_hash(&a->order, 8, atomic_fetch_add_explicit(&ticket, 1, memory_order_relaxed));
        if (resp) { vj* v = vj_parse(resp, strlen(resp), NULL); vj* d = vj_get(v, "id"); if (long_one) vh_viol("limit:too-long", "a message longer than the limit of %zu was answered", a->w->limit); else if (!d || d->t != VJ_NUM || d->n != (double)id || !vj_get(v, "result")) vh_viol("limit:answer", "ping %ld answered by %.200s", id, resp); else a->served++; vj_free(v); }
        else if (!e) vh_viol("limit:silent", "ping %ld got neither an answer nor an error", id);
        else if (e == MCP_ERROR_TOO_MANY_REQUESTS) a->refused++;
        else if (long_one) a->toolong++;
        else vh_viol("limit:refusal", "ping %ld refused with %d", id, e);
        free(resp);
    }
    free(big); vs_thread_done(); return NULL;
}
static void run_limit(void) {
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 700001 + (uint64_t)i);
        vs_cfg c; open_world(&r, &c); c.rl_window = 100000; c.rl_max = 1 + vh_below(&r, 60); c.adv_limit = vh_chance(&r, 60);
        if (c.adv_limit && vh_chance(&r, 50)) { c.bucket = 1; c.tokens_per_second = 0.000001; c.max_tokens = c.rl_max; c.rl_max = 100000; }
        size_t limit = c.bucket ? c.max_tokens : c.rl_max; c.max_message = 200 + vh_below(&r, 2000); c.grace_ms = 40000;
        vs_world* w = vs_open(&r, &c, NULL);
        int nt = 1 + (int)vh_below(&r, 6); pthread_t t[8]; larg a[8]; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, (unsigned)nt); long served = 0, refused = 0, toolong = 0, all = 0; uint64_t o = 1;
        for (int k = 0; k < nt; k++) { memset(&a[k], 0, sizeof a[k]); a[k].w = w; a[k].bar = &bar; a[k].id = k; a[k].n = 3 + (int)vh_below(&r, 40); all += a[k].n; pthread_create(&t[k], NULL, limit_thread, &a[k]); }
        for (int k = 0; k < nt; k++) { pthread_join(t[k], NULL); served += a[k].served; refused += a[k].refused; toolong += a[k].toolong; o = vh_hash(&a[k].order, 8, o); }
        pthread_barrier_destroy(&bar);
        long passed = served + toolong, want = all < (long)limit ? all : (long)limit;   /* one that is too long may or may not be counted first */
        if (served > (long)limit) vh_viol("limit:over", "%ld of %ld requests served, the limit is %zu", served, all, limit);
        else if (passed < want) vh_viol("limit:under", "only %ld of %ld requests passed, the limit is %zu (%s)", passed, all, limit, c.bucket ? "token bucket" : c.adv_limit ? "window, advanced" : "window");
        uint64_t t0 = vh_now_us(); int rc = mcp_server_stop(w->srv); uint64_t took = vh_now_us() - t0;
        if (rc) vh_viol("stop:failed", "stop reports an error");
        if (took > 30000000) vh_viol("stop:slow", "stop took %llu ms although no request was in progress (%ld had been refused, %ld were too long)", (unsigned long long)took / 1000, refused, toolong);
        vs_close(w); vh_evals(1); vh_distinct(o); vh_count("requests served", served); vh_count("requests refused by the limit", refused); vh_count("messages too long", toolong);
        if (i < 3) vh_sample("limit %zu (%s), %d threads: %ld served, %ld refused, %ld too long", limit, c.bucket ? "token bucket" : c.adv_limit ? "window, advanced" : "window", nt, served, refused, toolong);
    }
    vs_thread_done();
}
/* counters */
typedef struct { double total, ok, failed, tmo, sent, recv, active; int good; } met;
static met get_metrics(vs_world* w, size_t* qn, size_t* an) {
    met x; memset(&x, 0, sizeof x);
    const char* q = "{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"get_performance_metrics\",\"params\":{}}"; int e;
    char* a = vs_send(w, q, strlen(q), &e); if (!a) { vh_viol("metrics:none", "no metrics"); return x; }
    vj* v = vj_parse(a, strlen(a), NULL); vj* res = vj_get(v, "result"), * q1 = vj_get(res, "requests"), * t1 = vj_get(res, "throughput"), * c1 = vj_get(res, "connections");
    struct { vj* o; const char* k; double* d; } f[] = { { q1, "total", &x.total }, { q1, "successful", &x.ok }, { q1, "failed", &x.failed }, { q1, "timeout", &x.tmo }, { t1, "bytes_sent", &x.sent }, { t1, "bytes_received", &x.recv }, { c1, "active", &x.active } };
    x.good = 1;
    for (int i = 0; i < 7; i++) { vj* n = vj_get(f[i].o, f[i].k); if (!n || n->t != VJ_NUM) { vh_viol("metrics:shape", "metric %s missing in %.500s", f[i].k, a); x.good = 0; break; } *f[i].d = n->n; }
    *qn = strlen(q); *an = strlen(a);
    vj_free(v); free(a); return x;
}
typedef struct { vs_world* w; uint64_t seed; int n; double total, failed, sent, recv; pthread_barrier_t* bar; uint64_t order; } marg;
static int whole_failure(const vs_msg* m) { return m->garbage || (m->batch && m->n == 0) || (!m->batch && m->e[0].kind == VS_INVALID) || (!m->batch && !m->e[0].auth && m->e[0].kind != VS_PING && m->e[0].kind != VS_NOTE && m->e[0].kind != VS_RESP); }
static void* met_thread(void* p) {
    marg* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < a->n; i++) {
        vs_msg m; vs_gen(a->w, &r, &m, 1); int err;
        char* resp = vs_send(a->w, m.text.p, m.text.n, &err);
        a->total++; a->failed += whole_failure(&m); a->recv += (double)m.text.n; a->sent += resp ? (double)strlen(resp) : 0;
        a->order = vh_hash(&a->order, 8, atomic_fetch_add_explicit(&ticket, 1, memory_order_relaxed));
        free(resp); vs_msg_free(&m);
    }
    vs_thread_done(); return NULL;
}
static void run_metrics(void) {
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 31337 + (uint64_t)i);
        vs_cfg c; open_world(&r, &c); 
        vs_world* w = vs_open(&r, &c, NULL);
        if (vh_chance(&r, 50)) { int e; free(vs_send(w, "{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"ping\"}", 40, &e)); }
        size_t qn, an; double base_t = 0, base_f = 0, base_s = 0, base_r = 0; int reset = 0;
        for (int round = 0; round < 4; round++) {
            if (vh_chance(&r, 40)) {
                const char* q = "{\"jsonrpc\":\"2.0\",\"id\":6,\"method\":\"reset_performance_metrics\",\"params\":{}}"; int e; char* a = vs_send(w, q, strlen(q), &e);
                if (!a || !strstr(a, "\"result\"")) vh_viol("metrics:reset", "reset refused: %.200s", a ? a : "");
                /* the resetting request itself is counted when it ends */
                met z = get_metrics(w, &qn, &an);
                if (z.good && (z.total != 1 || z.ok + z.failed != 1 || z.sent != (double)(a ? strlen(a) : 0) || z.recv != (double)strlen(q))) vh_viol("metrics:not-reset", "after a reset: %.0f requests, %.0f bytes in, %.0f bytes out", z.total, z.recv, z.sent);
                free(a); reset++;
            }
            met b = get_metrics(w, &qn, &an);
            base_t = b.total + 1; base_f = b.failed; base_r = b.recv + (double)qn; base_s = b.sent + (double)an;
            int nt = 1 + (int)vh_below(&r, 6); pthread_t t[8]; marg a[8]; pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, (unsigned)nt);
            for (int k = 0; k < nt; k++) { memset(&a[k], 0, sizeof a[k]); a[k].w = w; a[k].seed = vh_next(&r); a[k].n = 10 + (int)vh_below(&r, 40); a[k].bar = &bar; pthread_create(&t[k], NULL, met_thread, &a[k]); }
            uint64_t o = 1; double T = 0;
            for (int k = 0; k < nt; k++) { pthread_join(t[k], NULL); base_t += a[k].total; base_f += a[k].failed; base_s += a[k].sent; base_r += a[k].recv; T += a[k].total; o = vh_hash(&a[k].order, 8, o); }
            pthread_barrier_destroy(&bar);
            met x = get_metrics(w, &qn, &an);
            if (!x.good) break;
            if (x.total != base_t) vh_viol("metrics:total", "%.0f messages handled, %.0f counted (%d threads)", base_t, x.total, nt);
            if (x.ok + x.failed + x.tmo != x.total) vh_viol("metrics:sum", "%.0f successful + %.0f failed is not %.0f", x.ok, x.failed, x.total);
            if (x.failed != base_f) vh_viol("metrics:failed", "%.0f messages failed as a whole, %.0f counted", base_f, x.failed);
            if (x.recv != base_r) vh_viol("metrics:received", "%.0f bytes received, %.0f counted", base_r, x.recv);
            if (x.sent != base_s) vh_viol("metrics:sent", "%.0f bytes sent, %.0f counted", base_s, x.sent);
            if (x.active != 1) vh_viol("metrics:active", "%.0f requests in progress while only the metrics request is", x.active);
            vh_evals(1); vh_distinct(o); vh_count("messages counted", (long)T);
            if (i < 2) vh_sample("%d threads: %.0f messages, %.0f failed, %.0f bytes in, %.0f bytes out", nt, x.total, x.failed, x.recv, x.sent);
        }
        vh_count("resets", reset);
        vs_close(w);
    }
    vs_thread_done();
}
/* the counters themselves: everything recorded by any number of threads is there afterwards */
typedef struct { uint64_t seed; int n, conn; double total, ok, failed, tmo, sent, recv, sum, lo, hi; pthread_barrier_t* bar; uint64_t order; } darg;
static void* direct_thread(void* p) {
    darg* a = p; vh_rng r; vh_rng_seed(&r, a->seed); int rising = (int)vh_below(&r, 3); a->lo = 1e300;
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < a->conn; i++) mcp_performance_metrics_update_connections(1);
    for (int i = 0; i < a->n; i++) {
        if (vh_chance(&r, 6)) { mcp_performance_metrics_record_timeout(); a->tmo++; a->total++; continue; }
        /* all threads move together, so that they compete for the largest and the smallest */
        uint64_t l = (rising == 0 ? 1000 + (uint64_t)i * 8 : rising == 1 ? 1000000 - (uint64_t)i * 8 : 1 + vh_below(&r, 2000000)) + vh_below(&r, 8), s = vh_below(&r, 5000), v = vh_below(&r, 5000); bool ok = vh_chance(&r, 80);
        mcp_performance_metrics_record_request(ok, l, s, v);
        a->total++; a->ok += ok; a->failed += !ok; a->sent += (double)s; a->recv += (double)v; a->sum += (double)l; if ((double)l < a->lo) a->lo = (double)l; if ((double)l > a->hi) a->hi = (double)l;
        if (i % 64 == 0) a->order = vh_hash(&a->order, 8, atomic_fetch_add_explicit(&ticket, 1, memory_order_relaxed));
    }
    pthread_barrier_wait(a->bar);
    for (int i = 0; i < a->conn; i++) mcp_performance_metrics_update_connections(-1);
    return NULL;
}
static double num(vj* v, const char* a, const char* b) { vj* n = vj_get(vj_get(v, a), b); if (!n || n->t != VJ_NUM) { vh_viol("metrics:shape", "metric %s.%s missing", a, b); return -1; } return n->n; }
static void run_direct(void) {
    if (mcp_performance_metrics_init() != 0) vh_viol("metrics:init", "counters could not be initialised");
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 50021 + (uint64_t)i); int keep = (int)vh_below(&r, 4);
        mcp_performance_metrics_update_connections(keep); mcp_performance_metrics_reset();
        int nt = 1 + (int)vh_below(&r, 8); pthread_t t[8]; darg a[8], s; memset(&s, 0, sizeof s); s.lo = 1e300; uint64_t one_seed = vh_next(&r); int together = vh_chance(&r, 60); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, (unsigned)nt); uint64_t o = 1; int conns = keep;
        for (int k = 0; k < nt; k++) { memset(&a[k], 0, sizeof a[k]); a[k].seed = together ? one_seed : vh_next(&r); a[k].n = together ? 700 : 50 + (int)vh_below(&r, 700); a[k].conn = (int)vh_below(&r, 20); conns += a[k].conn; a[k].bar = &bar; pthread_create(&t[k], NULL, direct_thread, &a[k]); }
        for (int k = 0; k < nt; k++) { pthread_join(t[k], NULL); s.total += a[k].total; s.ok += a[k].ok; s.failed += a[k].failed; s.tmo += a[k].tmo; s.sent += a[k].sent; s.recv += a[k].recv; s.sum += a[k].sum; if (a[k].lo < s.lo) s.lo = a[k].lo; if (a[k].hi > s.hi) s.hi = a[k].hi; o = vh_hash(&a[k].order, 8, o); }
        pthread_barrier_destroy(&bar);
        char b[4096]; if (mcp_performance_metrics_to_json(b, sizeof b) <= 0) { vh_viol("metrics:json", "no report"); break; }
        vj* v = vj_parse(b, strlen(b), NULL); if (!v) { vh_viol("metrics:json", "the report is not JSON: %.300s", b); break; }
        struct { const char* a, * b; double want; } f[] = { { "requests", "total", s.total }, { "requests", "successful", s.ok }, { "requests", "failed", s.failed }, { "requests", "timeout", s.tmo }, { "throughput", "bytes_sent", s.sent }, { "throughput", "bytes_received", s.recv }, { "connections", "active", keep }, { "connections", "peak", conns }, { "latency_us", "min", s.lo }, { "latency_us", "max", s.hi } };
        for (int k = 0; k < 10; k++) { double g = num(v, f[k].a, f[k].b); if (g != f[k].want) vh_viol("metrics:direct", "%s.%s is %.0f after %d threads had recorded %.0f", f[k].a, f[k].b, g, nt, f[k].want); }
        double er = num(v, "requests", "error_rate_percent"), we = 100.0 * (s.failed + s.tmo) / s.total; if (er < we - 0.01 || er > we + 0.01) vh_viol("metrics:error-rate", "error rate %.2f%%, %.0f of %.0f requests failed or timed out", er, s.failed + s.tmo, s.total);
        double av = num(v, "latency_us", "avg"); if (av < s.sum / s.total - 1 || av > s.sum / (s.total - s.tmo) + 1) vh_viol("metrics:average", "average of %.0f us, the sum of %.0f requests is %.0f us", av, s.total, s.sum);
        vj_free(v); mcp_performance_metrics_update_connections(-keep); vh_evals(1); vh_distinct(o); vh_count("requests recorded directly", (long)s.total);
        if (i < 2) vh_sample("%d threads: %.0f requests, %.0f timeouts, %.0f..%.0f us, %d connections at most", nt, s.total, s.tmo, s.lo, s.hi, conns);
    }
    mcp_performance_metrics_shutdown();
}
/* memory: the same traffic again and again must not need more */
static void run_leak(void) {
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 5557 + (uint64_t)i);
        vs_cfg c; open_world(&r, &c); if (vh_chance(&r, 25)) c.key = gen_key(&r);
        vs_world* w = vs_open(&r, &c, NULL);
        int n = 1 + (int)vh_below(&r, vh_chance(&r, 50) ? 3 : 30); sb* t = calloc((size_t)n, sizeof *t);
        uint64_t o = 1;
        for (int k = 0; k < n; k++) { vs_msg m; vs_gen(w, &r, &m, 1); t[k] = m.text; memset(&m.text, 0, sizeof m.text); o = vh_hash(&o, 8, msg_sig(&m)); vs_msg_free(&m); if (vh_chance(&r, 25)) mutate(&r, &t[k]); }
        size_t h0 = 0; int rounds = 60, warm = 20; size_t peak = 0;
        for (int q = 0; q < rounds; q++) {
            for (int k = 0; k < n; k++) { int e; free(vs_send(w, t[k].p, t[k].n, &e)); }
            size_t h = HEAP();
            if (q < warm) { if (h > peak) peak = h; h0 = peak; }
        }
        size_t h1 = HEAP();
        /* what is cached changes from round to round, by less than this; a leak of one allocation per round adds up to more */
        if (h1 > h0 + 16 * (size_t)(rounds - warm) && h1 > h0) {
            /* decide: does it keep growing with the number of repetitions? */
            size_t last = h1; int grew = 0;
            for (int z = 0; z < 5; z++) { for (int q = 0; q < 40; q++) for (int k = 0; k < n; k++) { int e; free(vs_send(w, t[k].p, t[k].n, &e)); } size_t h = HEAP(); if (h > last) grew++; last = h > last ? h : last; }
            if (grew == 5) vh_viol("memory:grows", "the same %d messages keep taking more memory: %zu -> %zu -> %zu bytes, e.g. %.300s", n, h0, h1, last, t[0].p);
        }
        vh_count("repeated messages", (long)n * rounds);
        for (int k = 0; k < n; k++) sb_free(&t[k]);
        free(t); vs_close(w); vh_evals(1); vh_distinct(o);
        if (i < 3) vh_sample("%d messages repeated %d times: heap %zu then %zu bytes", n, rounds, h0, h1);
    }
    vs_thread_done();
}
int main(int argc, char** argv) {
    vh_init(argc, argv);
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    if (!strcmp(vh_mode, "msgs")) run_msgs(0);
    else if (!strcmp(vh_mode, "auth")) run_msgs(1);
    else if (!strcmp(vh_mode, "hostile")) run_hostile();
    else if (!strcmp(vh_mode, "mt")) run_mt();
    else if (!strcmp(vh_mode, "stop")) run_stop();
    else if (!strcmp(vh_mode, "metrics")) run_metrics();
    else if (!strcmp(vh_mode, "leak")) run_leak();
    else if (!strcmp(vh_mode, "direct")) run_direct();
    else if (!strcmp(vh_mode, "limit")) run_limit();
    else return 3;
    return vh_finish();
}
