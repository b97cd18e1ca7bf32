// LINK: -Wl,--wrap=recv,--wrap=send,--wrap=writev,--wrap=sendmsg,--wrap=poll
/* The client over its TCP transport, against a server written here.
   own    many threads on one connection; answers at once, later, out of order, in pieces, with errors, after rubbish
   drop   the same while the server breaks connections; the client has to fail outstanding calls and to come back
   pool   the same through a pool of connections, some of which break or stay silent
   late   calls that are never answered, or answered after their timeout
   life   clients created and destroyed: connected, refused, waiting for a reconnection, with calls outstanding */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <dirent.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "mcp_transport.h"
#include "mcp_tcp_client_transport.h"
#include "mcp_tcp_pool_transport.h"
#include "mcp_client.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
static __thread int mine;
#define RAW_THREAD mine = 1;
#include "rawsrv.h"

/* ---- interruptions and short counts on the client's side ---- */
static _Atomic(int) inject; static __thread vh_rng ir; static __thread int ir_on; static _Atomic(uint64_t) ir_n; static _Atomic(long) injected;
static vh_rng* irng(void) { if (!ir_on) { ir_on = 1; vh_rng_seed(&ir, vh_seed * 7919 + atomic_fetch_add(&ir_n, 1)); } return &ir; }
static int hit(int pct) { if (mine || !atomic_load(&inject)) return 0; if (!vh_chance(irng(), pct)) return 0; atomic_fetch_add(&injected, 1); return 1; }
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_writev(int, const struct iovec*, int); ssize_t __real_sendmsg(int, const struct msghdr*, int); int __real_poll(struct pollfd*, nfds_t, int);
static size_t cut(size_t n) { if (n < 2) return n; vh_rng* r = irng(); return 1 + (vh_chance(r, 50) ? vh_below(r, n < 8 ? n : 8) : vh_below(r, n)); }
ssize_t __wrap_recv(int s, void* b, size_t n, int f) { if (hit(3)) { errno = EINTR; return -1; } return __real_recv(s, b, hit(30) ? cut(n) : n, hit(30) ? f & ~MSG_WAITALL : f); }
static void pause_(void) { if (vh_chance(irng(), 50)) vh_usleep((long)vh_below(irng(), 300)); }
ssize_t __wrap_send(int s, const void* b, size_t n, int f) { if (hit(3)) { errno = EINTR; return -1; } if (hit(30)) { ssize_t k = __real_send(s, b, cut(n), f); pause_(); return k; } return __real_send(s, b, n, f); }
static ssize_t part(int s, const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; size_t want = cut(t); struct iovec w[64]; int k = 0; for (int i = 0; i < n && i < 64 && want; i++) { w[k] = v[i]; if (w[k].iov_len > want) w[k].iov_len = want; want -= w[k].iov_len; k++; } struct msghdr h = { .msg_iov = w, .msg_iovlen = (size_t)k }; ssize_t g = __real_sendmsg(s, &h, MSG_NOSIGNAL); pause_(); return g; }
ssize_t __wrap_writev(int s, const struct iovec* v, int n) { if (hit(3)) { errno = EINTR; return -1; } if (hit(30)) return part(s, v, n); return __real_writev(s, v, n); }
ssize_t __wrap_sendmsg(int s, const struct msghdr* h, int f) { if (hit(3)) { errno = EINTR; return -1; } if (hit(30)) return part(s, h->msg_iov, (int)h->msg_iovlen); return __real_sendmsg(s, h, f); }
int __wrap_poll(struct pollfd* p, nfds_t n, int t) { if (hit(5)) { errno = EINTR; return -1; } return __real_poll(p, n, t); }

/* ---- what the server answers ---- */
enum { ANSWER, LATE, ERROR_, RUBBISH, NEVER, TOOLATE, DROP, DROPMID, RESET, BADLEN };
static char* answer_text(long k, uint64_t hash, size_t rl) { char* s = malloc(rl + 100); int i = sprintf(s, "\"@%ld@%llx@", k, (unsigned long long)hash); text(s + i, rl, (uint64_t)k * 31 + hash); strcat(s + i, "\""); return s; }
static int on_frame(conn* c, char* b, size_t x, vh_rng* r) {
    if (strstr(b, "\"ping\"") && x < 100) { push(c, "{\"jsonrpc\":\"2.0\",\"id\":0,\"result\":{}}", 36, 0, 0); return 0; }
    long k; int plan; size_t rl, pn; unsigned long long hash, id; char* at = strstr(b, "\"@"); char* idp = strstr(b, "\"id\":"); int used = 0;
    if (b[0] != '{' || b[x - 1] != '}' || memchr(b, 0, x) || !at || !idp || sscanf(idp, "\"id\":%llu", &id) != 1 || sscanf(at, "\"@%ld:%d:%zu:%zu:%llx@%n", &k, &plan, &rl, &pn, &hash, &used) != 5 || !used || strlen(at + used) < pn || vh_hash(at + used, pn, 9) != hash) { vh_viol("tcpc:frame", "the client sent a frame of %zu bytes that is none of its requests: \"%.60s\"", x, b); return 1; }
    char* t = answer_text(k, hash, rl); char* o = malloc(strlen(t) + 200); long us = plan == LATE ? (long)vh_below(r, 30000) : plan == TOOLATE ? 400000 + (long)vh_below(r, 200000) : 0; int n;
    if (plan == ERROR_) n = sprintf(o, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%ld,\"message\":\"e%ld-%llx\"}}", id, -32000 - k % 50, k, hash); else n = sprintf(o, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":%s}", id, t);
    if (plan == RUBBISH) { static const char* z[] = { "{", "not json", "[]", "{\"jsonrpc\":\"2.0\",\"id\":99999999,\"result\":1}", "\"x\"", "{\"jsonrpc\":\"2.0\",\"method\":\"note\"}", "null" }; const char* g = z[vh_below(r, 7)]; push(c, g, strlen(g), 0, 0); us = 500; }
    if (plan == DROP || plan == RESET) drop(c, plan == RESET); else if (plan != NEVER) push(c, o, (size_t)n, us, plan == DROPMID ? RAW_CUT : plan == BADLEN ? RAW_BADLEN : RAW_WHOLE);
    free(t); free(o); return 0;
}
/* ---- callers ---- */
static _Atomic(long) next_k = 1;
typedef struct { world* w; mcp_client_t* c; uint64_t seed; long n, ok, failed; int mode; uint32_t timeout; _Atomic(int)* quit; } caller;
enum { OWN, DROPS, LATES, BUSY, POOLED };
static int call(caller* j, vh_rng* r, int plan, uint64_t* took) {       /* 1 own answer, 0 failed, -1 wrong (reported) */
    long k = atomic_fetch_add(&next_k, 1); int x = (int)vh_below(r, 100); size_t n = x < 70 ? vh_below(r, 300) : x < 92 ? vh_below(r, 9000) : vh_below(r, 250000), rl = vh_chance(r, 85) ? vh_below(r, 500) : vh_below(r, 60000);
    char* pad = malloc(n + 1); text(pad, n, vh_next(r)); uint64_t hash = vh_hash(pad, n, 9); char* p = malloc(n + 200); sprintf(p, "{\"a\":\"@%ld:%d:%zu:%zu:%llx@%s\"}", k, plan, rl, n, (unsigned long long)hash, pad); free(pad);
    char *res = NULL, *msg = NULL; mcp_error_code_t ec = 0; uint64_t t0 = vh_now_us(); int rc = mcp_client_send_request(j->c, "m", p, &res, &ec, &msg); *took = vh_now_us() - t0; free(p);
    int out = 0; char* want = answer_text(k, hash, rl); char em[80]; sprintf(em, "e%ld-%llx", k, (unsigned long long)hash);
    if (plan == ERROR_ && rc == 0 && ec == -32000 - k % 50 && msg && !strcmp(msg, em)) out = 1;
    else if (plan == ERROR_ && rc != 0 && ec == -32000 - k % 50 && msg && !strcmp(msg, em)) out = 1;
    else if (rc == 0 && (!res || strcmp(res, want) || plan == NEVER || plan == ERROR_)) { vh_viol("tcpc:answer", "call %ld (plan %d) returned success with \"%.60s\", its answer is \"%.60s\"", k, plan, res ? res : "nothing", want); out = -1; }
    else if (rc == 0) out = 1;
    if (rc != 0 && res) { vh_viol("tcpc:result-on-failure", "call %ld failed with a result", k); out = -1; }
    free(want); free(res); free(msg); return out;
}
static void* calling(void* a) {
    caller* j = a; mcp_arena_init_current_thread(65536); vh_rng r; vh_rng_seed(&r, j->seed); world* w = j->w; uint64_t took;
    for (long i = 0; i < j->n && vh_viol_count() < 5 && !(j->quit && atomic_load(j->quit)); i++) {
        int x = (int)vh_below(&r, 100), plan = x < 50 ? ANSWER : x < 75 ? LATE : x < 88 ? ERROR_ : RUBBISH;
        if (j->mode == DROPS && vh_chance(&r, 4)) plan = DROP + (int)vh_below(&r, 4);
        if (j->mode == POOLED) plan = x < 55 ? ANSWER : x < 80 ? LATE : x < 95 ? ERROR_ : DROP + (int)vh_below(&r, 3); if (j->mode == POOLED && j->timeout < 1000 && vh_chance(&r, 25)) plan = NEVER;
        if (j->mode == LATES) plan = vh_chance(&r, 40) ? NEVER : vh_chance(&r, 60) ? TOOLATE : ANSWER;
        long d0 = atomic_load(&w->drops), a0 = atomic_load(&w->accepts); uint64_t t0 = vh_now_us(); int o = call(j, &r, plan, &took); uint64_t t1 = vh_now_us(); long d1 = atomic_load(&w->drops);
        if (o == 1) j->ok++; else if (o == 0) j->failed++;
        if (j->mode == OWN && o == 0) vh_viol("tcpc:failed", "a call (plan %d) on an undisturbed connection failed after %llu ms", plan, (unsigned long long)took / 1000);
        if (j->mode == POOLED) {
            if (o == 0 && plan <= ERROR_ && took < (uint64_t)j->timeout * 900) vh_viol("tcpc:pool-failed", "a call (plan %d) through the pool failed after %llu ms although its connection was never broken", plan, (unsigned long long)took / 1000);
            if (o == 0 && took > (uint64_t)j->timeout * 1000 + 15000000) vh_viol("tcpc:late", "a call (plan %d) with a timeout of %u ms failed after %llu ms", plan, j->timeout, (unsigned long long)took / 1000);
        }
        if (j->mode == LATES) {
            if (plan == ANSWER && o == 0 && took < (uint64_t)j->timeout * 900) vh_viol("tcpc:failed", "an answered call failed after %llu ms", (unsigned long long)took / 1000);
            if (plan != ANSWER && o == 0 && took < (uint64_t)j->timeout * 900) vh_viol("tcpc:early", "a call with a timeout of %u ms failed after %llu us", j->timeout, (unsigned long long)took);
            if (o == 0 && took > (uint64_t)j->timeout * 1000 + 15000000) vh_viol("tcpc:late", "a call with a timeout of %u ms failed after %llu ms", j->timeout, (unsigned long long)took / 1000);
        }
        if (j->mode == DROPS && o == 0) {
            /* a failure needs a reason: a connection broken during the call, or none established for the last two seconds before it */
            uint64_t la = atomic_load(&w->last_accept); int during = d1 != d0, down = a0 < d0 + 1, fresh = la + 2000000 > t0; (void)t1;
            if (!during && !down && !fresh) vh_viol("tcpc:failed", "a call (plan %d) failed after %llu ms although its connection was never broken", plan, (unsigned long long)took / 1000);
            if (took > 20000000) vh_viol("tcpc:lost-late", "a call (plan %d) on a broken connection failed only after %llu ms (its timeout is %u)", plan, (unsigned long long)took / 1000, j->timeout);
            vh_usleep(1000 + (long)vh_below(&r, 20000));
        }
    }
    mcp_arena_destroy_current_thread(); return NULL;
}
static mcp_client_t* client_open(uint16_t port, uint32_t timeout, const mcp_reconnect_config_t* rc) { mcp_transport_t* t = mcp_tcp_client_create_reconnect("127.0.0.1", port, rc); if (!t) return NULL; mcp_client_config_t c = { .request_timeout_ms = timeout }; return mcp_client_create(&c, t); }
static mcp_client_t* pool_open(uint16_t port, uint32_t timeout, vh_rng* r) { size_t lo = vh_below(r, 3), hi = lo + 1 + vh_below(r, 8); if (hi < 3) hi = 3; mcp_transport_t* t = mcp_tcp_pool_transport_create("127.0.0.1", port, lo, hi, 60000, 10000, (int)timeout); if (!t) return NULL; mcp_client_config_t c = { .request_timeout_ms = timeout }; return mcp_client_create(&c, t); }
static void talk(vh_rng* r, int mode) {
    world w; server_open(&w, r, 0, on_frame); atomic_store(&w.slow, vh_chance(r, 40)); uint32_t timeout = mode == LATES ? 300 : mode == POOLED && vh_chance(r, 40) ? 500 : 60000;
    mcp_reconnect_config_t rc = { .enable_reconnect = true, .max_reconnect_attempts = 0, .initial_reconnect_delay_ms = 5 + (uint32_t)vh_below(r, 40), .max_reconnect_delay_ms = 60, .backoff_factor = 1.5f, .randomize_delay = vh_chance(r, 50) };
    mcp_client_t* c = mode == POOLED ? pool_open(w.port, timeout, r) : client_open(w.port, timeout, &rc); if (!c) { vh_viol("tcpc:create", "no client for a listening server"); return; }
    atomic_store(&inject, vh_chance(r, 70)); int n = 2 + (int)vh_below(r, 10); caller js[12]; pthread_t th[12]; long each = vh_cases / 4 / n + 1;
    for (int i = 0; i < n; i++) { js[i] = (caller){ .w = &w, .c = c, .seed = vh_next(r), .n = each, .mode = mode, .timeout = timeout }; pthread_create(&th[i], NULL, calling, &js[i]); }
    long ok = 0, failed = 0; for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); ok += js[i].ok; failed += js[i].failed; }
    if (mode == DROPS && vh_viol_count() < 5) {     /* however often it was broken, the client comes back */
        caller j = { .w = &w, .c = c, .timeout = timeout, .mode = DROPS }; uint64_t took, t0 = vh_now_us(); int o = 0; vh_rng q; vh_rng_seed(&q, vh_next(r)); mcp_arena_init_current_thread(65536);
        while (!(o = call(&j, &q, ANSWER, &took)) && vh_now_us() - t0 < 30000000ULL) vh_usleep(20000);
        if (o == 0) vh_viol("tcpc:dead", "no call succeeded for 30 s after %ld broken connections (%ld accepted) although the server accepts", atomic_load(&w.drops), atomic_load(&w.accepts));
        ok += o == 1; vh_count("connections broken", atomic_load(&w.drops)); vh_count("connections accepted", atomic_load(&w.accepts));
    }
    vh_evals(ok + failed); vh_count("own answers over TCP", ok); vh_count("failed calls", failed); vh_distinct(vh_hash(&ok, sizeof ok, (uint64_t)failed * 131 + w.seed)); vh_count("interruptions injected", atomic_exchange(&injected, 0));
    for (long i = 0; i < ok; i++) vh_distinct(w.seed + (uint64_t)i);
    vh_sample("%d threads on one connection: %ld own answers, %ld failures, %ld connections broken", n, ok, failed, atomic_load(&w.drops));
    uint64_t t0 = vh_now_us(); mcp_client_destroy(c); t0 = vh_now_us() - t0; if (t0 > 20000000ULL) vh_viol("tcpc:destroy-slow", "destroying the client took %llu ms", (unsigned long long)t0 / 1000);
    atomic_store(&inject, 0); server_close(&w);
}
static int count_dir(const char* p) { int n = 0; DIR* d = opendir(p); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static void life(vh_rng* r) {
    mine = 0; static const char* what[] = { "connected", "nobody listens", "nobody listens any more", "server stops answering" };
    { world w; server_open(&w, r, 0, on_frame); mcp_client_t* c = client_open(w.port, 100, NULL); mcp_client_destroy(c); server_close(&w); }
    int fd0 = count_dir("/proc/self/fd"), th0 = count_dir("/proc/self/task");
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        int kind = (int)vh_below(r, 4); world w; server_open(&w, r, 0, on_frame); uint16_t port = w.port; int open_ = 1;
        mcp_reconnect_config_t rc = { .enable_reconnect = vh_chance(r, 80), .max_reconnect_attempts = (int)vh_below(r, 3), .initial_reconnect_delay_ms = vh_chance(r, 50) ? 60000 : (uint32_t)vh_below(r, 20), .max_reconnect_delay_ms = 60000, .backoff_factor = 2.0f, .randomize_delay = false };
        if (kind == 1) { server_close(&w); open_ = 0; }
        mcp_client_t* c = client_open(port, 60000, vh_chance(r, 20) ? NULL : &rc);
        if (!c && kind != 1) { vh_viol("tcpc:create", "no client for a listening server"); break; }
        pthread_t th[3]; caller js[3]; _Atomic(int) quit = 0; int n = c && vh_chance(r, 60) ? 1 + (int)vh_below(r, 3) : 0; (void)n;
        if (c && kind != 1) { caller j = { .w = &w, .c = c, .mode = BUSY, .timeout = 60000 }; uint64_t took; mcp_arena_init_current_thread(65536); if (call(&j, r, ANSWER, &took) != 1) vh_viol("tcpc:failed", "the first call on a fresh connection failed"); }
        if (kind == 2) { server_close(&w); open_ = 0; if (vh_chance(r, 70)) { caller j = { .w = &w, .c = c, .mode = BUSY, .timeout = 60000 }; uint64_t took; for (int q = 0; q < 3; q++) if (call(&j, r, ANSWER, &took) == 1) vh_viol("tcpc:ghost", "a call was answered without a server"); if (took > 20000000) vh_viol("tcpc:lost-late", "a call without a server failed after %llu ms", (unsigned long long)took / 1000); } }
        if (kind == 3) { for (int q = 0; q < n; q++) { js[q] = (caller){ .w = &w, .c = c, .seed = vh_next(r), .n = 1000000, .mode = BUSY, .timeout = 60000, .quit = &quit }; pthread_create(&th[q], NULL, calling, &js[q]); } vh_usleep((long)vh_below(r, 30000)); atomic_store(&quit, 1); for (int q = 0; q < n; q++) pthread_join(th[q], NULL); }
        if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 60000));
        uint64_t t0 = vh_now_us(); if (c) mcp_client_destroy(c); t0 = vh_now_us() - t0; if (t0 > 20000000ULL) vh_viol("tcpc:destroy-slow", "destroying the client (%s) took %llu ms", what[kind], (unsigned long long)t0 / 1000);
        if (open_) server_close(&w);
        vh_evals(1); vh_distinct(vh_hash(&rc, sizeof rc, (uint64_t)kind)); vh_count("client lives over TCP", 1);
    }
    int fd = 0, th = 0; for (int i = 0; i < 50; i++) { fd = count_dir("/proc/self/fd"); th = count_dir("/proc/self/task"); if (fd <= fd0 && th <= th0) break; vh_usleep(100000); }
    if (fd > fd0) vh_viol("tcpc:fd-leak", "%d descriptors before %ld client lives, %d after", fd0, vh_cases, fd);
    if (th > th0) vh_viol("tcpc:thread-leak", "%d threads before %ld client lives, %d after", th0, vh_cases, th);
    mcp_arena_destroy_current_thread();
}
/* the memory a connected client needs does not grow with the number of its calls */
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static int on_frame_grow(conn* c, char* b, size_t x, vh_rng* r) {
    char* idp = strstr(b, "\"id\":"); unsigned long long id; (void)x; if (!idp || sscanf(idp, "\"id\":%llu", &id) != 1) return 0; size_t n = 100 + vh_below(r, 400); char* o = malloc(n * 12 + 100); int k;
    if (vh_chance(r, 10)) { const char* g = vh_chance(r, 50) ? "{\"a\":[1,2,3,{}]" : "{\"jsonrpc\":\"2.0\",\"method\":\"note\",\"params\":[1,2,3,4,5,6,7,8]}"; push(c, g, strlen(g), 0, 0); }
    if (vh_chance(r, 20)) k = sprintf(o, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":-3,\"message\":\"no\"}}", id);
    else { k = sprintf(o, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":[", id); for (size_t i = 0; i < n; i++) k += sprintf(o + k, "%s%d", i ? "," : "", (int)vh_below(r, 1000)); k += sprintf(o + k, "]}"); }
    push(c, o, (size_t)k, 0, 0); free(o); return 0;
}
static void grow(vh_rng* r) {
    world w; server_open(&w, r, 0, on_frame_grow); atomic_store(&w.slow, 0); mcp_client_t* c = client_open(w.port, 60000, NULL); if (!c) { vh_viol("tcpc:create", "no client for a listening server"); return; } mcp_arena_init_current_thread(65536);
    size_t at[6] = { 0 }; for (int q = 0; q < 6; q++) { for (long i = 0; i < vh_cases; i++) { char *res = NULL, *msg = NULL; mcp_error_code_t ec = 0; mcp_client_send_request(c, "m", "{\"a\":1}", &res, &ec, &msg); if (!res && !msg) vh_viol("tcpc:failed", "a call on an undisturbed connection failed"); free(res); free(msg); mcp_arena_reset_current_thread(); } at[q] = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
    vh_evals(6 * vh_cases); vh_count("calls with the heap watched", 6 * vh_cases); for (int q = 0; q < 6; q++) vh_distinct(at[q] + (uint64_t)q); vh_sample("live heap after each %ld calls: %zu %zu %zu %zu %zu %zu", vh_cases, at[0], at[1], at[2], at[3], at[4], at[5]);
    if (at[1] > at[0] && at[5] > at[1] + 500000) vh_viol("tcpc:growth", "the live heap of a client grows with its calls: %zu, %zu, %zu, %zu, %zu, %zu bytes after each %ld", at[0], at[1], at[2], at[3], at[4], at[5], vh_cases);
    mcp_client_destroy(c); server_close(&w); mcp_arena_destroy_current_thread();
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); vh_high_fds(&r); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "life")) life(&r); else if (!strcmp(vh_mode, "grow")) grow(&r); else for (int i = 0; i < 4 && vh_viol_count() < 5; i++) talk(&r, !strcmp(vh_mode, "own") ? OWN : !strcmp(vh_mode, "drop") ? DROPS : !strcmp(vh_mode, "pool") ? POOLED : LATES);
    return vh_finish();
}
