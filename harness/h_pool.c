// LINK: -Wl,--wrap=connect,--wrap=close,--wrap=time,--wrap=mcp_sleep_ms
/* The TCP connection pool against an echo server on the loopback interface (P14).
   Every connection the pool opens or closes passes through the stand-ins for connect and close, which only keep books (and
   may delay a connection or refuse it); the pool's clock runs fast so that idle and health checks happen within a case.
   use:     threads take, use and return connections (some as invalid) while the server closes or refuses some
   wait:    what callers get from a full pool, an unreachable server and a returned connection
   destroy: the pool is destroyed under waiting callers
   many:    connections with descriptors beyond 1024 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <signal.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "vh.h"
#include "mcp_connection_pool.h"
#include "mcp_log.h"
#define MAXFD 8192

/* ---- books ---- */
static _Atomic(uint64_t) gen[MAXFD];           /* serial of the connection open on this descriptor, 0: none */
static _Atomic(int) owner[MAXFD];
static _Atomic(uint64_t) serials = 1; static _Atomic(long) open_now, opened, refused, peak, limit;
static _Atomic(int) refuse_pct, slow_us, gate, at_gate; static _Atomic(uint64_t) noise = 1;
int __real_connect(int, const struct sockaddr*, socklen_t); int __real_close(int); time_t __real_time(time_t*); void __real_mcp_sleep_ms(uint32_t);
static uint64_t rnd(void) { uint64_t x = atomic_fetch_add(&noise, 0x9e3779b97f4a7c15ULL); x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
int __wrap_connect(int f, const struct sockaddr* a, socklen_t l) {
    if (f < 0 || f >= MAXFD) return __real_connect(f, a, l);
    long n = atomic_fetch_add(&open_now, 1) + 1, lim = atomic_load(&limit), p = atomic_load(&peak); while (n > p && !atomic_compare_exchange_weak(&peak, &p, n)) ;
    atomic_store(&gen[f], atomic_fetch_add(&serials, 1)); atomic_fetch_add(&opened, 1);
    if (lim && n > lim) vh_viol("pool:too-many", "%ld connections open or being opened in a pool limited to %ld", n, lim);
    if (atomic_load(&gate)) { atomic_fetch_add(&at_gate, 1); while (atomic_load(&gate)) vh_usleep(200); atomic_fetch_sub(&at_gate, 1); }
    int s = atomic_load(&slow_us); if (s) vh_usleep((long)(rnd() % (uint64_t)s));
    if ((int)(rnd() % 100) < atomic_load(&refuse_pct)) { atomic_fetch_add(&refused, 1); errno = ECONNREFUSED; return -1; }
    return __real_connect(f, a, l);
}
int __wrap_close(int f) {
    if (f >= 0 && f < MAXFD && atomic_exchange(&gen[f], 0)) { atomic_fetch_sub(&open_now, 1); if (atomic_load(&owner[f])) vh_viol("pool:closed-in-use", "connection %d closed while a caller was holding it", f); }
    return __real_close(f);
}
static uint64_t t0; static _Atomic(int) speed = 1;
time_t __wrap_time(time_t* o) { time_t t = (time_t)(1700000000 + (vh_now_us() - t0) * (uint64_t)atomic_load(&speed) / 1000000); if (o) *o = t; return t; }
void __wrap_mcp_sleep_ms(uint32_t ms) { __real_mcp_sleep_ms(ms >= 500 ? ms / 250 : ms); }

/* ---- echo server ---- */
typedef struct { int lfd, ep, stop[2]; uint16_t port; pthread_t th; _Atomic(int) close_pct; _Atomic(long) echoed, closed; uint64_t seed; } srv;
static void* serve(void* a) {
    srv* s = a; vh_rng r; vh_rng_seed(&r, s->seed); struct epoll_event ev[64]; unsigned char* up = calloc(MAXFD, 1);
    for (;;) {
        int n = epoll_wait(s->ep, ev, 64, -1); int quit = 0;
        for (int i = 0; i < n; i++) { int f = ev[i].data.fd;
            if (f == s->stop[0]) { quit = 1; continue; }
            if (f == s->lfd) { int c; while ((c = accept4(f, NULL, NULL, SOCK_NONBLOCK)) >= 0) { struct epoll_event e = { .events = EPOLLIN, .data.fd = c }; epoll_ctl(s->ep, EPOLL_CTL_ADD, c, &e); up[c] = 1; } continue; }
            char b[4096]; ssize_t k = recv(f, b, sizeof b, 0); if (k < 0 && (errno == EAGAIN || errno == EINTR)) continue;
            int drop = k > 0 && vh_chance(&r, atomic_load(&s->close_pct)), before = drop && vh_chance(&r, 50);
            if (k > 0 && !before) { if (send(f, b, (size_t)k, MSG_NOSIGNAL) < 0) {} atomic_fetch_add(&s->echoed, 1); }
            if (k <= 0 || drop) { if (drop) atomic_fetch_add(&s->closed, 1); up[f] = 0; __real_close(f); }
        }
        if (quit) break;
    }
    for (int f = 0; f < MAXFD; f++) if (up[f]) __real_close(f);
    free(up); return NULL;
}
static void srv_open(srv* s, uint64_t seed) {
    memset(s, 0, sizeof *s); s->seed = seed; s->lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a;
    int one = 1; setsockopt(s->lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (bind(s->lfd, (struct sockaddr*)&a, sizeof a) || listen(s->lfd, 1024) || getsockname(s->lfd, (struct sockaddr*)&a, &l) || pipe(s->stop)) { perror("server"); exit(3); }
    s->port = ntohs(a.sin_port); s->ep = epoll_create1(0); struct epoll_event e = { .events = EPOLLIN, .data.fd = s->lfd }; epoll_ctl(s->ep, EPOLL_CTL_ADD, s->lfd, &e); e.data.fd = s->stop[0]; epoll_ctl(s->ep, EPOLL_CTL_ADD, s->stop[0], &e);
    pthread_create(&s->th, NULL, serve, s);
}
static void srv_close(srv* s) { if (write(s->stop[1], "x", 1) < 0) {} pthread_join(s->th, NULL); __real_close(s->lfd); __real_close(s->ep); __real_close(s->stop[0]); __real_close(s->stop[1]); }

/* ---- callers ---- */
enum { SERIALS = 1 << 22 }; static _Atomic(char) invalid_serial[SERIALS];
static SOCKET take(mcp_connection_pool_t* p, int timeout, int me, uint64_t* serial) {
    SOCKET f = mcp_connection_pool_get(p, timeout); if (f == INVALID_SOCKET) return f;
    if (f < 0 || f >= MAXFD) { vh_viol("pool:handle", "handed out descriptor %d", f); return INVALID_SOCKET; }
    int was = atomic_exchange(&owner[f], me); if (was) vh_viol("pool:shared", "connection %d handed to caller %d while caller %d was holding it", f, me, was);
    *serial = atomic_load(&gen[f]); if (!*serial) vh_viol("pool:closed", "connection %d handed out after it had been closed", f);
    if (atomic_load(&invalid_serial[*serial % SERIALS])) vh_viol("pool:invalid-again", "connection %d was handed out again after being returned as invalid", f);
    return f;
}
static void give(mcp_connection_pool_t* p, SOCKET f, int ok) { atomic_store(&owner[f], 0); if (mcp_connection_pool_release(p, f, ok) != 0) vh_viol("pool:release", "releasing connection %d failed", f); }
/* one exchange on a connection: 1 answered, 0 the server ended it, -1 something else came back */
static int talk(SOCKET f, uint64_t token) {
    char b[64]; size_t n = 16, got = 0; memcpy(b, &token, 8); token = ~token; memcpy(b + 8, &token, 8); if (send(f, b, n, MSG_NOSIGNAL) != (ssize_t)n) return 0;
    char c[64]; while (got < n) { struct pollfd q = { f, POLLIN, 0 }; int k = poll(&q, 1, 20000); if (k == 0) return -2; if (k < 0) { if (errno == EINTR) continue; return 0; } ssize_t m = recv(f, c + got, n - got, 0); if (m < 0 && (errno == EAGAIN || errno == EINTR)) continue; if (m <= 0) return 0; got += (size_t)m; }
    if (memcmp(b, c, n)) return -1;
    struct pollfd q = { f, POLLIN, 0 }; if (poll(&q, 1, 0) > 0 && (q.revents & POLLIN) && recv(f, c, 1, MSG_PEEK | MSG_DONTWAIT) > 0) return -1;
    return 1;
}
typedef struct { mcp_connection_pool_t* p; srv* s; uint64_t seed; int n, me, invalid_pct; long got, none, invalid, dead; uint64_t h; _Atomic(int)* go; int timeout, rc, back; uint64_t us; SOCKET f; _Atomic(int) tid; } wk;
static void* user(void* a) {
    wk* w = a; vh_rng r; vh_rng_seed(&r, w->seed); while (!atomic_load(w->go)) sched_yield();
    for (int i = 0; i < w->n && vh_viol_count() < 5; i++) {
        uint64_t serial = 0; static const int tos[] = { 0, 1, 5, 50, 20000, -1 }; int to = tos[vh_below(&r, 6)]; if (to == -1 && atomic_load(&refuse_pct)) to = 20000;
        uint64_t b0 = vh_now_us(); SOCKET f = take(w->p, to, w->me, &serial); uint64_t waited = vh_now_us() - b0;
        if (waited > 18000000) vh_viol("pool:waiter-late", "a caller waited %llu us although every holder returns its connection within milliseconds", (unsigned long long)waited);
        if (f == INVALID_SOCKET) { w->none++; continue; }
        w->got++; w->h = vh_hash(&f, sizeof f, w->h); int ok = 1, t = 1, reps = (int)vh_below(&r, 3);
        for (int k = 0; k < reps && t == 1; k++) t = talk(f, ((uint64_t)w->me << 48) | (serial << 20) | (uint64_t)i);
        if (t == -1) vh_viol("pool:foreign-data", "connection %d carried bytes of an earlier holder", f);
        if (t != 1) { ok = 0; w->dead++; }
        if (vh_chance(&r, 20)) vh_usleep((long)vh_below(&r, 1500));
        if (ok && vh_chance(&r, w->invalid_pct)) { ok = 0; w->invalid++; }
        if (atomic_load(&gen[f]) != serial) vh_viol("pool:replaced", "connection %d was closed or replaced while held", f);
        if (!ok) atomic_store(&invalid_serial[serial % SERIALS], 1);
        give(w->p, f, ok);
    }
    return NULL;
}
static int stats(mcp_connection_pool_t* p, size_t* t, size_t* i, size_t* a) { size_t x, y; return mcp_connection_pool_get_stats(p, t, i, a, &x, &y); }
static void quiet(mcp_connection_pool_t* p, size_t held, size_t max) {
    size_t t = 0, i = 0, a = 0; long o = 0; uint64_t s = vh_now_us();
    do { stats(p, &t, &i, &a); o = atomic_load(&open_now); if (t == i + a && a == held && (long)t == o && t <= max) { vh_count("quiet states compared", 1); return; } vh_usleep(1000); } while (vh_now_us() - s < 8000000);
    vh_viol("pool:counts", "with %zu connections held and %ld open the pool reports %zu total, %zu idle, %zu active (limit %zu)", held, o, t, i, a, max);
}
static mcp_connection_pool_t* mk(srv* s, size_t min, size_t max, int idle, int health) {
    atomic_store(&limit, (long)max); atomic_store(&peak, 0);
    mcp_connection_pool_t* p = mcp_connection_pool_create("127.0.0.1", s->port, min, max, idle, 20000, health, 2000); if (!p) vh_viol("pool:create", "no pool (min %zu, max %zu)", min, max); return p;
}
static void done(mcp_connection_pool_t* p) { mcp_connection_pool_destroy(p); if (atomic_load(&open_now)) { vh_viol("pool:left-open", "%ld connections open after the pool was destroyed", atomic_load(&open_now)); atomic_store(&open_now, 0); for (int i = 0; i < MAXFD; i++) if (atomic_exchange(&gen[i], 0)) __real_close(i); } atomic_store(&limit, 0); }
static void use(vh_rng* r) {
    srv s; srv_open(&s, vh_next(r)); size_t max = 1 + vh_below(r, 6), min = vh_chance(r, 50) ? vh_below(r, max + 1) : 0; int idle = vh_chance(r, 50) ? 1000 : 0, health = vh_chance(r, 50) ? 1000 : 0;
    atomic_store(&speed, idle || health ? 1 + (int)vh_below(r, 500) : 1); atomic_store(&slow_us, vh_chance(r, 50) ? 2000 : 0); atomic_store(&noise, vh_next(r));
    mcp_connection_pool_t* p = mk(&s, min, max, idle, health); if (!p) return;
    atomic_store(&s.close_pct, vh_chance(r, 40) ? 15 : 0); atomic_store(&refuse_pct, vh_chance(r, 30) ? 30 : 0);
    int nt = 1 + (int)vh_below(r, 9); pthread_t th[16]; wk ws[16]; memset(ws, 0, sizeof ws); _Atomic(int) go; atomic_init(&go, 0); int inv = vh_chance(r, 50) ? 15 : 0;
    for (int i = 0; i < nt; i++) { ws[i] = (wk){ .p = p, .s = &s, .seed = vh_next(r), .n = 30, .me = i + 1, .invalid_pct = inv, .go = &go }; pthread_create(&th[i], NULL, user, &ws[i]); }
    atomic_store(&go, 1); long got = 0, none = 0, invalid = 0, dead = 0; uint64_t h = 0;
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); got += ws[i].got; none += ws[i].none; invalid += ws[i].invalid; dead += ws[i].dead; h = vh_hash(&ws[i].h, 8, h); }
    atomic_store(&refuse_pct, 0); quiet(p, 0, max);
    /* whatever happened, a caller is served */
    uint64_t serial; uint64_t c0 = vh_now_us(); SOCKET f = take(p, 20000, 99, &serial); if (f == INVALID_SOCKET) vh_viol("pool:unusable", "no connection from an idle pool with a reachable server"); else { quiet(p, 1, max); give(p, f, 1); }
    if (vh_now_us() - c0 > 15000000) vh_viol("pool:slow", "a caller of a quiet pool waited %llu us", (unsigned long long)(vh_now_us() - c0));
    for (int k = 0; k < MAXFD; k++) if (atomic_load(&invalid_serial[atomic_load(&gen[k]) % SERIALS])) vh_viol("pool:invalid-kept", "a connection returned as invalid is still open");
    long pk = atomic_load(&peak); done(p); srv_close(&s);
    vh_evals(got + none); vh_distinct(h); vh_count("connections taken", got); vh_count("refused or timed out", none); vh_count("returned as invalid", invalid); vh_count("ended by the server", dead);
    vh_sample("max %zu min %zu idle %d ms health %d ms, %d threads: %ld taken, %ld none, %ld invalid, %ld ended by server, peak %ld open", max, min, idle, health, nt, got, none, invalid, dead, pk);
}
static void* getter(void* a) { wk* w = a; uint64_t serial, b = vh_now_us(); atomic_store(&w->tid, (int)syscall(SYS_gettid)); w->f = take(w->p, w->timeout, w->me, &serial); w->us = vh_now_us() - b; if (w->back && w->f != INVALID_SOCKET) { vh_usleep(500); give(w->p, w->f, 1); } return NULL; }
static void wait_case(vh_rng* r) {
    srv s; srv_open(&s, vh_next(r)); size_t max = 1 + vh_below(r, 4); atomic_store(&speed, 1); atomic_store(&slow_us, 0); atomic_store(&refuse_pct, 0);
    mcp_connection_pool_t* p = mk(&s, vh_chance(r, 50) ? vh_below(r, max + 1) : 0, max, 0, vh_chance(r, 30) ? 1000 : 0); if (!p) return; SOCKET f[8]; uint64_t serial[8]; int kind = (int)vh_below(r, 5);
    if (kind < 4) for (size_t i = 0; i < max; i++) if ((f[i] = take(p, 5000, 1 + (int)i, &serial[i])) == INVALID_SOCKET) { vh_viol("pool:unusable", "connection %zu of %zu refused", i + 1, max); return; }
    if (kind == 0) {   /* full */
        int to = vh_chance(r, 30) ? 0 : 5 + (int)vh_below(r, 150); wk w = { .p = p, .timeout = to, .me = 50 }; getter(&w);
        if (w.f != INVALID_SOCKET) vh_viol("pool:too-many", "a full pool handed out another connection");
        if (w.us + 3000 < (uint64_t)to * 1000) vh_viol("pool:early", "a caller with a timeout of %d ms was refused after %llu us", to, (unsigned long long)w.us);
        if (w.us > (uint64_t)to * 1000 + 10000000) vh_viol("pool:late", "a caller with a timeout of %d ms was refused after %llu us", to, (unsigned long long)w.us);
        for (size_t i = 0; i < max; i++) give(p, f[i], 1); vh_count("refusals of a full pool", 1);
    } else if (kind < 4) {   /* waiters are served by what is returned, valid or not */
        int nw = 1 + (int)vh_below(r, max); wk ws[4]; pthread_t th[4]; for (int i = 0; i < nw; i++) { ws[i] = (wk){ .p = p, .timeout = vh_chance(r, 50) ? -1 : 30000, .me = 50 + i }; pthread_create(&th[i], NULL, getter, &ws[i]); }
        vh_usleep((long)vh_below(r, 20000)); int bad = kind == 2; for (int i = 0; i < nw; i++) { give(p, f[i], !(bad || (kind == 3 && vh_chance(r, 50)))); if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 3000)); }
        for (int i = 0; i < nw; i++) { pthread_join(th[i], NULL); if (ws[i].f == INVALID_SOCKET) vh_viol("pool:waiter", "a waiting caller got nothing although %d connections were returned to %d waiters", nw, nw); else if (ws[i].us > 15000000) vh_viol("pool:waiter-late", "a waiting caller was served after %llu us", (unsigned long long)ws[i].us); }
        quiet(p, max, max);
        for (int i = 0; i < nw; i++) if (ws[i].f != INVALID_SOCKET) { if (talk(ws[i].f, vh_next(r)) != 1) vh_viol("pool:dead", "a waiting caller got a connection that does not work"); give(p, ws[i].f, 1); } for (size_t i = (size_t)nw; i < max; i++) give(p, f[i], 1);
        vh_count("waiting callers served", nw);
    } else {   /* the server refuses everybody, then recovers */
        mcp_connection_pool_destroy(p); p = mk(&s, 0, max, 0, 0); if (!p) return; atomic_store(&refuse_pct, 100); atomic_store(&slow_us, 20000); int nw = 1 + (int)vh_below(r, 4); wk ws[4]; pthread_t th[4];
        for (int i = 0; i < nw; i++) { ws[i] = (wk){ .p = p, .timeout = 5 + (int)vh_below(r, 200), .me = 50 + i }; pthread_create(&th[i], NULL, getter, &ws[i]); }
        for (int i = 0; i < nw; i++) { pthread_join(th[i], NULL); if (ws[i].f != INVALID_SOCKET) vh_viol("pool:handle", "a connection was handed out although the server refused all"); else if (ws[i].us > (uint64_t)ws[i].timeout * 1000 + 10000000) vh_viol("pool:late", "a caller with a timeout of %d ms failed after %llu us", ws[i].timeout, (unsigned long long)ws[i].us); }
        quiet(p, 0, max);
        /* one attempt fails while others wait for its place */
        for (int i = 0; i < nw; i++) { ws[i] = (wk){ .p = p, .timeout = i ? 30000 : 0, .me = 50 + i, .back = 1 }; pthread_create(&th[i], NULL, getter, &ws[i]); if (i == 0) { vh_usleep(1000); } }
        vh_usleep((long)vh_below(r, 4000)); atomic_store(&refuse_pct, 0); int got = 0; for (int i = 0; i < nw; i++) { pthread_join(th[i], NULL); if (ws[i].us > 15000000) vh_viol("pool:waiter-late", "a caller waited %llu us although connections could be had", (unsigned long long)ws[i].us); if (ws[i].f != INVALID_SOCKET) got++; }
        uint64_t sr; SOCKET x = take(p, 20000, 60, &sr); if (x == INVALID_SOCKET) vh_viol("pool:unusable", "no connection after the server recovered"); else give(p, x, 1);
        vh_count("callers of a refusing server", nw); vh_count("served after a failed attempt", got);
    }
    quiet(p, 0, max); done(p); srv_close(&s); vh_evals(1); uint64_t h = (uint64_t)kind * 16 + max; vh_distinct(vh_hash(&h, 8, atomic_load(&noise)));
}
static int asleep(wk* w) { int t = atomic_load(&w->tid); char b[400]; if (!t) return 0; sprintf(b, "/proc/self/task/%d/stat", t); FILE* f = fopen(b, "r"); if (!f) return 0; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; char* s = strrchr(b, ')'); return s && s[1] && s[2] == 'S'; }
static void* open_gate(void* a) { vh_usleep((long)(intptr_t)a); atomic_store(&gate, 0); return NULL; }
/* callers in the middle of connecting while the pool is destroyed */
static void connecting_case(vh_rng* r) {
    srv s; srv_open(&s, vh_next(r)); size_t max = 1 + vh_below(r, 4); atomic_store(&speed, 1); atomic_store(&slow_us, 0); atomic_store(&refuse_pct, vh_chance(r, 30) ? 50 : 0);
    mcp_connection_pool_t* p = mk(&s, 0, max, 0, 0); if (!p) return;
    int nw = 1 + (int)vh_below(r, 6), in = (size_t)nw < max ? nw : (int)max; wk ws[8]; pthread_t th[8], g; atomic_store(&gate, 1);
    for (int i = 0; i < nw; i++) { ws[i] = (wk){ .p = p, .timeout = 60000, .me = 50 + i }; pthread_create(&th[i], NULL, getter, &ws[i]); }
    int calm = 0; for (int k = 0; k < 30000 && calm < 4; k++) { int all = atomic_load(&at_gate) == in; for (int i = 0; i < nw; i++) all &= atomic_load(&ws[i].tid) != 0; int sl = 0; for (int i = 0; i < nw; i++) sl += asleep(&ws[i]); calm = all && sl >= nw - in ? calm + 1 : 0; vh_usleep(1000); } if (calm < 4) { printf("callers do not come to rest\n"); exit(3); }
    pthread_create(&g, NULL, open_gate, (void*)(intptr_t)vh_below(r, 8000));
    uint64_t b = vh_now_us(); mcp_connection_pool_destroy(p); b = vh_now_us() - b; if (b > 15000000) vh_viol("pool:slow-destroy", "destroying took %llu us", (unsigned long long)b);
    pthread_join(g, NULL); int got = 0; for (int i = 0; i < nw; i++) { pthread_join(th[i], NULL); if (ws[i].f != INVALID_SOCKET) { got++; atomic_store(&owner[ws[i].f], 0); close(ws[i].f); } }
    if (atomic_load(&open_now)) vh_viol("pool:left-open", "%ld connections open after the pool was destroyed while %d callers were connecting", atomic_load(&open_now), in);
    atomic_store(&limit, 0); srv_close(&s); vh_evals(1); vh_count("callers connecting at the destruction", in); vh_distinct(vh_hash(&got, sizeof got, (uint64_t)nw * 64 + max));
}
static void destroy_case(vh_rng* r) {
    if (vh_chance(r, 30)) { connecting_case(r); return; }
    srv s; srv_open(&s, vh_next(r)); size_t max = 1 + vh_below(r, 4); atomic_store(&speed, 100); atomic_store(&slow_us, vh_chance(r, 50) ? 3000 : 0); atomic_store(&refuse_pct, 0);
    mcp_connection_pool_t* p = mk(&s, vh_chance(r, 50) ? vh_below(r, max + 1) : 0, max, vh_chance(r, 50) ? 1000 : 0, vh_chance(r, 30) ? 1000 : 0); if (!p) return;
    int held = vh_chance(r, 70); SOCKET f[8]; uint64_t sr; if (held) for (size_t i = 0; i < max; i++) f[i] = take(p, 5000, 1 + (int)i, &sr);
    int nw = 1 + (int)vh_below(r, 5); wk ws[8]; pthread_t th[8]; for (int i = 0; i < nw && held; i++) { ws[i] = (wk){ .p = p, .timeout = vh_chance(r, 50) ? -1 : 30000, .me = 50 + i }; pthread_create(&th[i], NULL, getter, &ws[i]); }
    vh_usleep((long)vh_below(r, 4000));
    /* the callers have to be inside and waiting before the pool may be destroyed */
    if (held) { int calm = 0; for (int k = 0; k < 30000 && calm < 4; k++) { int all = 1; for (int i = 0; i < nw; i++) all &= asleep(&ws[i]); calm = all ? calm + 1 : 0; vh_usleep(1000); } if (calm < 4) { printf("callers do not come to rest\n"); exit(3); } for (size_t i = 0; i < max; i++) if (f[i] != INVALID_SOCKET) atomic_store(&owner[f[i]], 0); }
    uint64_t b = vh_now_us(); mcp_connection_pool_destroy(p); b = vh_now_us() - b; if (b > 15000000) vh_viol("pool:slow-destroy", "destroying took %llu us", (unsigned long long)b);
    if (held) { for (int i = 0; i < nw; i++) { pthread_join(th[i], NULL); if (ws[i].f != INVALID_SOCKET) vh_viol("pool:after-destroy", "a waiting caller got a connection from a destroyed pool"); }
        for (size_t i = 0; i < max; i++) if (f[i] != INVALID_SOCKET && atomic_load(&gen[f[i]])) close(f[i]); }
    if (atomic_load(&open_now)) { vh_viol("pool:left-open", "%ld connections open after the pool was destroyed", atomic_load(&open_now)); }
    atomic_store(&limit, 0); srv_close(&s); vh_evals(1); vh_count("callers waiting at the destruction", held ? nw : 0); uint64_t h = vh_now_us() % 64 + (uint64_t)nw * 64; vh_distinct(h);
}
static void many(vh_rng* r) {
    int fds[1200], n = 0; for (; n < 1100; n++) if ((fds[n] = dup(2)) < 0) break;
    srv s; srv_open(&s, vh_next(r)); atomic_store(&speed, 1); atomic_store(&slow_us, 0); atomic_store(&refuse_pct, 0); size_t max = 20 + vh_below(r, 30); mcp_connection_pool_t* p = mk(&s, vh_below(r, 5), max, 0, vh_chance(r, 50) ? 1000 : 0); SOCKET f[64]; uint64_t sr; long high = 0;
    for (int round = 0; round < 2; round++) { for (size_t i = 0; i < max; i++) { f[i] = take(p, 5000, 1 + (int)i, &sr); if (f[i] == INVALID_SOCKET) vh_viol("pool:unusable", "connection %zu of %zu refused", i + 1, max); else { if (f[i] >= 1024) high++; if (talk(f[i], vh_next(r)) != 1) vh_viol("pool:dead", "connection %d does not work", f[i]); } }
        quiet(p, max, max); for (size_t i = 0; i < max; i++) if (f[i] != INVALID_SOCKET) give(p, f[i], 1); }
    done(p); srv_close(&s); for (int i = 0; i < n; i++) __real_close(fds[i]); vh_evals((long)max * 2); vh_count("connections on descriptors beyond 1024", high); vh_distinct(max);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(getenv("VLOG") ? MCP_LOG_LEVEL_DEBUG : MCP_LOG_LEVEL_FATAL); vh_rng r; vh_rng_seed(&r, vh_seed); t0 = vh_now_us(); signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = { MAXFD, MAXFD }; struct rlimit o; getrlimit(RLIMIT_NOFILE, &o); if (o.rlim_cur < MAXFD) setrlimit(RLIMIT_NOFILE, &rl);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) { if (!strcmp(vh_mode, "use")) use(&r); else if (!strcmp(vh_mode, "wait")) wait_case(&r); else if (!strcmp(vh_mode, "destroy")) destroy_case(&r); else if (!strcmp(vh_mode, "many")) many(&r); else return 2; }
    return vh_finish();
}
