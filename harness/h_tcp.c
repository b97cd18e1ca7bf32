// LINK: -Wl,--wrap=recv,--wrap=send,--wrap=writev,--wrap=sendmsg,--wrap=poll,--wrap=accept
// USE: vsrv
/* The TCP transport on the loopback interface, driven by raw socket clients.
   The transport's callback computes its answer from what it is handed, so a client can recompute every answer. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "vsrv.h"
#include "mcp_transport.h"
#include "mcp_tcp_transport.h"
#include "mcp_framing.h"
#include "mcp_log.h"
#define MAXMSG (1024 * 1024)

/* ---- interruptions and short counts on the transport's side, as signals may cause them on any blocking socket ---- */
static __thread int mine; static _Atomic(int) inject; static __thread vh_rng ir; static __thread int ir_on; static _Atomic(uint64_t) ir_n; static _Atomic(long) injected;
static vh_rng* irng(void) { if (!ir_on) { ir_on = 1; vh_rng_seed(&ir, vh_seed * 7919 + atomic_fetch_add(&ir_n, 1)); } return &ir; }
static int hit(int pct) { if (mine || !atomic_load(&inject)) return 0; if (!vh_chance(irng(), pct)) return 0; atomic_fetch_add(&injected, 1); return 1; }
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_writev(int, const struct iovec*, int); ssize_t __real_sendmsg(int, const struct msghdr*, int);
int __real_poll(struct pollfd*, nfds_t, int); int __real_accept(int, struct sockaddr*, socklen_t*);
static size_t cut(size_t n) { if (n < 2) return n; vh_rng* r = irng(); return 1 + (vh_chance(r, 50) ? vh_below(r, n < 8 ? n : 8) : vh_below(r, n)); }
ssize_t __wrap_recv(int f, void* b, size_t n, int fl) { if (n && hit(5)) { errno = EINTR; return -1; } if (n && hit(25)) n = cut(n); if (n == 0) return 0; return __real_recv(f, b, n, fl); }
ssize_t __wrap_send(int f, const void* b, size_t n, int fl) { if (n && hit(5)) { errno = EINTR; return -1; } if (n && hit(25)) n = cut(n); return __real_send(f, b, n, fl); }
static int shorten(const struct iovec* v, int n, struct iovec* o) {
    size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len;
    size_t left = cut(t); int k = 0;
    for (int i = 0; i < n && left && k < 64; i++) { o[k] = v[i]; if (o[k].iov_len > left) o[k].iov_len = left; left -= o[k].iov_len; k++; }
    return k;
}
ssize_t __wrap_writev(int f, const struct iovec* v, int n) { struct iovec o[64]; if (n > 0 && hit(5)) { errno = EINTR; return -1; } if (n > 0 && hit(30)) { int k = shorten(v, n, o); return __real_writev(f, o, k); } return __real_writev(f, v, n); }
ssize_t __wrap_sendmsg(int f, const struct msghdr* m, int fl) {
    struct iovec o[64]; if (hit(5)) { errno = EINTR; return -1; }
    if (m->msg_iovlen && hit(30)) { struct msghdr x = *m; x.msg_iov = o; x.msg_iovlen = (size_t)shorten(m->msg_iov, (int)m->msg_iovlen, o); return __real_sendmsg(f, &x, fl); }
    return __real_sendmsg(f, m, fl);
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t) { if (hit(5)) { errno = EINTR; return -1; } return __real_poll(p, n, t); }
int __wrap_accept(int f, struct sockaddr* a, socklen_t* l) { if (hit(10)) { errno = EINTR; return -1; } return __real_accept(f, a, l); }

/* ---- what the transport serves ---- */
typedef struct { mcp_transport_t* t; uint16_t port; _Atomic(long) calls, bad; _Atomic(int) closed; _Atomic(int) slow_us; } world;
static void fill(char* p, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) { if (i % 8 == 0) h = h * 6364136223846793005ULL + 1442695040888963407ULL; unsigned char c = (unsigned char)(h >> (8 * (i % 8))); p[i] = (char)(c < 32 ? c + 64 : c); } }
static char* answer(long conn, long seq, size_t n) {   /* exactly n bytes */
    char* s = malloc(n + 64); int k = sprintf(s, "R%ld:%ld:", conn, seq); if ((size_t)k < n) fill(s + k, n - (size_t)k, (uint64_t)conn * 1000003 + (uint64_t)seq); s[n] = 0; return s;
}
static char* serve(void* u, const void* data, size_t size, int* err) {
    world* w = u; *err = 0; atomic_fetch_add(&w->calls, 1);
    if (atomic_load(&w->closed)) vh_viol("tcp:after-stop", "message callback entered after the transport had been stopped");
    if (!data || !size) return NULL;
    const char* p = data; long conn, seq; size_t rlen; uint64_t hash; int k = 0; char head[96]; size_t hn = size < 95 ? size : 95; memcpy(head, p, hn); head[hn] = 0;
    if (sscanf(head, "%ld:%ld:%zu:%lx:%n", &conn, &seq, &rlen, &hash, &k) != 4 || !k) { atomic_fetch_add(&w->bad, 1); *err = 1; return NULL; }
    uint64_t got = vh_hash(p + k, size - (size_t)k, 17);
    if (got != hash) vh_viol("tcp:request-bytes", "connection %ld request %ld: the %zu bytes handed to the callback are not those sent", conn, seq, size);
    int slow = atomic_load(&w->slow_us); if (slow) vh_usleep(slow);
    if (!rlen) { *err = (int)(seq % 3); return NULL; }
    return answer(conn, seq, rlen);
}
static char* request(vh_rng* r, long conn, long seq, size_t n, size_t rlen, size_t* out) {  /* n: wished size of the frame */
    size_t body = n > 80 ? n - 80 : 0; char* b = malloc(body + 1); fill(b, body, vh_next(r));
    for (int i = 0; i < 4 && body; i++) b[vh_below(r, body)] = "\t\n\r "[vh_below(r, 4)];
    char* s = malloc(body + 200); int k = sprintf(s, "%ld:%ld:%zu:%lx:", conn, seq, rlen, 0UL);
    uint64_t h = vh_hash(b, body, 17); k = sprintf(s, "%ld:%ld:%zu:%lx:", conn, seq, rlen, h);
    memcpy(s + k, b, body); *out = (size_t)k + body;
    if (n == MAXMSG) { while (*out < MAXMSG) { /* pad to the limit exactly */ size_t add = MAXMSG - *out; free(b); b = malloc(body + add); fill(b, body + add, vh_next(r)); body += add; h = vh_hash(b, body, 17); s = realloc(s, body + 200); k = sprintf(s, "%ld:%ld:%zu:%lx:", conn, seq, rlen, h); memcpy(s + k, b, body); *out = (size_t)k + body; if (*out > MAXMSG) { body -= *out - MAXMSG; h = vh_hash(b, body, 17); k = sprintf(s, "%ld:%ld:%zu:%lx:", conn, seq, rlen, h); memcpy(s + k, b, body); *out = (size_t)k + body; if (*out > MAXMSG) { *out = 0; break; } } } }
    free(b); return s;
}
static uint16_t free_port(void) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; if (bind(s, (void*)&a, sizeof a) || getsockname(s, (void*)&a, &l)) { close(s); return 0; } close(s); return ntohs(a.sin_port); }
static void open_world(world* w, uint32_t idle) {
    memset(w, 0, sizeof *w);
    for (int i = 0; i < 20; i++) { w->port = free_port(); w->t = mcp_transport_tcp_create("127.0.0.1", w->port, idle); if (!w->t) { vh_viol("tcp:create", "transport could not be created"); exit(vh_finish()); } if (mcp_transport_start(w->t, serve, w, NULL) == 0) return; mcp_transport_destroy(w->t); }
    vh_viol("tcp:start", "transport did not start on 20 free ports"); exit(vh_finish());
}
static int dial(uint16_t port, int nb) {
    int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    if (connect(s, (void*)&a, sizeof a)) { close(s); return -1; }
    int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (nb) fcntl(s, F_SETFL, O_NONBLOCK);
    return s;
}
static _Atomic(long) next_conn;

/* One connection: n frames, written in random pieces, answers read meanwhile and compared.
   Returns 1 when all expected answers arrived, 0 when the connection ended early, -1 on a wrong answer. */
enum { HALF = 1, SMALL = 2, QUIET = 4 };
static int converse(world* w, vh_rng* r, int frames, int flags, long* answered, size_t cutat, int how) {
    long conn = atomic_fetch_add(&next_conn, 1); int s = dial(w->port, 1); *answered = 0; if (s < 0) return 0;
    if ((flags & SMALL) && vh_chance(r, 20)) { int v = 8192; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); }   /* with large answers the loopback stack itself stalls on small windows */
    char* out = NULL; size_t on = 0; size_t* want = calloc((size_t)frames, sizeof *want); size_t* end = calloc((size_t)frames, sizeof *end); long expect = 0;
    for (int i = 0; i < frames; i++) {
        size_t n, rl; int k = (int)vh_below(r, 100);
        if (flags & SMALL) { n = 1 + vh_below(r, 400); rl = 1 + vh_below(r, 400); }
        else { n = k < 60 ? vh_below(r, 600) : k < 85 ? vh_below(r, 40000) : k < 97 ? vh_below(r, 300000) : k < 98 ? MAXMSG : MAXMSG - vh_below(r, 64); k = (int)vh_below(r, 100); rl = k < 8 ? 0 : k < 60 ? 1 + vh_below(r, 600) : k < 85 ? 1 + vh_below(r, 40000) : k < 97 ? 1 + vh_below(r, 300000) : k < 98 ? MAXMSG : MAXMSG - vh_below(r, 64); }
        size_t qn; char* q = request(r, conn, i, n, rl, &qn); if (!qn) { free(q); q = request(r, conn, i, 100, rl, &qn); }
        uint32_t be = htonl((uint32_t)qn); out = realloc(out, on + 4 + qn); memcpy(out + on, &be, 4); memcpy(out + on + 4, q, qn); on += 4 + qn; free(q);
        want[i] = rl; end[i] = on; if (rl) expect++;
    }
    if (cutat && cutat < on) on = cutat;
    size_t sent = 0; char* in = NULL; size_t got = 0, cap = 0; int rd = 0, ok = 0, halfed = 0; int next = 0; while (next < frames && !want[next]) next++;
    int style = (int)vh_below(r, 5); uint64_t t0 = vh_now_us(); int lazy = vh_chance(r, 15);
    for (;;) {
        if (*answered == expect && (!cutat || sent == on)) { ok = 1; break; }
        if (cutat && sent == on) break;
        /* write ahead of the answers only while those stay small: with both directions full the loopback stack drops and backs off for minutes */
        size_t lim = on, due = 0; for (int i = next; i < frames; i++) { due += want[i]; if (due > 30000) { if (end[i] < lim) lim = end[i]; break; } }
        struct pollfd pf = { .fd = s, .events = (short)((sent < lim ? POLLOUT : 0) | (lazy && sent < lim && vh_chance(r, 80) ? 0 : POLLIN)) };
        if (__real_poll(&pf, 1, 2000) == 0) { if (vh_now_us() - t0 > 90000000ULL) { vh_viol("tcp:no-answer", "connection %ld: %ld of %ld answers after 90 s (%zu of %zu bytes sent)", conn, *answered, expect, sent, on); rd = -1; break; } }
        if (pf.revents & (POLLIN | POLLHUP | POLLERR)) {
            if (cap - got < 70000) in = realloc(in, cap = cap * 2 + 140000);
            ssize_t k = __real_recv(s, in + got, style == 1 ? 1 + vh_below(r, 2000) : 65536, 0);
            if (k == 0 || (k < 0 && errno != EAGAIN && errno != EINTR)) break;
            if (k > 0) got += (size_t)k;
            size_t at = 0;
            while (got - at >= 4) {
                uint32_t be; memcpy(&be, in + at, 4); size_t n = ntohl(be);
                if (next >= frames || n != want[next]) { vh_viol("tcp:answer-frame", "connection %ld: got an answer frame of %zu bytes where answer %d of %zu bytes was due", conn, n, next, next < frames ? want[next] : 0); rd = -1; break; }
                if (got - at - 4 < n) break;
                char* a = answer(conn, next, n);
                if (memcmp(a, in + at + 4, n)) { vh_viol("tcp:answer-bytes", "connection %ld: answer %d (%zu bytes) differs from what was produced for it: \"%.24s\"", conn, next, n, in + at + 4); rd = -1; }
                free(a); at += 4 + n; (*answered)++; next++; while (next < frames && !want[next]) next++;
                if (rd) break;
            }
            if (rd) break;
            memmove(in, in + at, got - at); got -= at;
        }
        if ((pf.revents & POLLOUT) && sent < lim) {
            size_t n = lim - sent; switch (style) { case 0: n = 1 + vh_below(r, 3); if (on > 20000) n = 1 + vh_below(r, 3000); break; case 1: n = 1 + vh_below(r, 100); if (on > 200000) n *= 100; break; case 2: n = 1 + vh_below(r, 70000); break; default: break; }
            if (n > lim - sent) n = lim - sent;
            ssize_t k = __real_send(s, out + sent, n, MSG_NOSIGNAL); if (k > 0) sent += (size_t)k; else if (k < 0 && errno != EAGAIN && errno != EINTR) break;
            if (style == 0 && vh_chance(r, 5)) vh_usleep(200);
            if (sent == on && (flags & HALF) && !halfed) { halfed = 1; shutdown(s, SHUT_WR); }
        }
    }
    if (ok && vh_chance(r, 20)) { vh_usleep(2000); char c; ssize_t k = __real_recv(s, &c, 1, MSG_DONTWAIT); if (k > 0) { vh_viol("tcp:extra-bytes", "connection %ld: bytes after the last answer", conn); rd = -1; } }
    if (how == 1) { struct linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    else if (how == 2) shutdown(s, SHUT_WR);
    close(s); free(out); free(in); free(want); free(end);
    return rd ? -1 : ok;
}
static void hostile(world* w, vh_rng* r) {
    int k = (int)vh_below(r, 12); long a; unsigned char b[64]; int s;
    if (k < 4) { converse(w, r, 1 + (int)vh_below(r, 4), vh_chance(r, 50) ? SMALL : 0, &a, 1 + vh_below(r, vh_chance(r, 50) ? 8 : 3000), (int)vh_below(r, 3)); return; }  /* cut off somewhere */
    s = dial(w->port, 0); if (s < 0) return;
    struct timeval tv = { 2, 0 }; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    uint32_t len = k == 4 ? 0xffffffffu : k == 5 ? MAXMSG + 1 : k == 6 ? 0x80000000u + (uint32_t)vh_below(r, 1000) : k == 7 ? 0 : k == 8 ? MAXMSG : (uint32_t)vh_next(r);
    uint32_t be = htonl(len); memcpy(b, &be, 4); for (int i = 4; i < 64; i++) b[i] = (unsigned char)vh_next(r);
    if (k == 9) { /* many large answers asked for, none read, then gone */
        long conn = atomic_fetch_add(&next_conn, 1);
        for (int i = 0; i < 6; i++) { size_t qn; char* q = request(r, conn, i, 100, 200000 + vh_below(r, 500000), &qn); uint32_t x = htonl((uint32_t)qn); if (__real_send(s, &x, 4, MSG_NOSIGNAL) != 4 || __real_send(s, q, qn, MSG_NOSIGNAL) < 0) { free(q); break; } free(q); }
        vh_usleep((long)vh_below(r, 20000)); if (vh_chance(r, 50)) { struct linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    } else if (k == 10) { /* nothing at all */ }
    else { __real_send(s, b, vh_chance(r, 30) ? 4 : 4 + vh_below(r, 60), MSG_NOSIGNAL); if (vh_chance(r, 50)) shutdown(s, SHUT_WR); if (vh_chance(r, 30)) { char c[256]; __real_recv(s, c, sizeof c, k == 4 || k == 5 || k == 6 ? 0 : MSG_DONTWAIT); } }
    close(s);
}
/* ---- modes ---- */
typedef struct { world* w; uint64_t seed; long n; int attack, tid; long answers, convs; } job;
static void* client(void* a) {
    job* j = a; mine = 1; vh_rng r; vh_rng_seed(&r, j->seed);
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        if (j->attack) { hostile(j->w, &r); j->convs++; continue; }
        long got; int fl = (vh_chance(&r, 20) ? HALF : 0) | (vh_chance(&r, 50) ? SMALL : 0); int frames = 1 + (int)vh_below(&r, (fl & SMALL) ? 40 : 12);
        int ok = converse(j->w, &r, frames, fl, &got, 0, (int)vh_below(&r, 3));
        if (ok == 0) vh_viol("tcp:connection-lost", "a well-behaved connection of %d frames ended after %ld answers", frames, got);
        j->answers += got; j->convs++;
        vh_distinct(vh_hash(&r, sizeof r, (uint64_t)got));
    }
    return NULL;
}
static int count_dir(const char* d) { DIR* x = opendir(d); int n = 0; if (!x) return -1; while (readdir(x)) n++; closedir(x); return n; }
static void run_clients(world* w, vh_rng* r, int good, int bad, long each) {
    job js[64]; pthread_t th[64]; int n = good + bad; memset(js, 0, sizeof js);
    for (int i = 0; i < n; i++) { js[i] = (job){ .w = w, .seed = vh_next(r), .n = i < good ? each : each * 6, .attack = i >= good, .tid = i }; pthread_create(&th[i], NULL, client, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(js[i].convs); vh_count(js[i].attack ? "hostile connections" : "answers compared", js[i].attack ? js[i].convs : js[i].answers); }
}
static void m_frag1(vh_rng* r, int attackers, int inj) {
    world* w = calloc(1, sizeof *w); open_world(w, vh_chance(r, 50) ? 0 : 60000); atomic_store(&inject, inj);
    int good = 1 + (int)vh_below(r, 12), bad = attackers ? 1 + (int)vh_below(r, 8) : 0;
    run_clients(w, r, good, bad, vh_cases / 2 / good + 1);
    atomic_store(&inject, 0);
    vh_count("interruptions and short counts injected", atomic_exchange(&injected, 0)); vh_count("callback calls", atomic_load(&w->calls));
    vh_sample("%d clients, %d attackers, %ld callback calls", good, bad, atomic_load(&w->calls));
    mcp_transport_stop(w->t); atomic_store(&w->closed, 1); mcp_transport_destroy(w->t); free(w);
}
static void m_frag(vh_rng* r, int attackers) { m_frag1(r, attackers, 0); m_frag1(r, attackers, 1); }
/* stop under load: clients run until they see their connection closed */
typedef struct { world* w; uint64_t seed; int kind; _Atomic(int)* stop; long answers; } ljob;
static int recv_all(int s, char* b, size_t n) { size_t g = 0; while (g < n) { ssize_t k = __real_recv(s, b + g, n - g, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) return k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) ? -2 : -1; g += (size_t)k; } return 0; }
static void* loader(void* a) {
    ljob* j = a; mine = 1; vh_rng r; vh_rng_seed(&r, j->seed); long conn = atomic_fetch_add(&next_conn, 1);
    int s = dial(j->w->port, 0); if (s < 0) return NULL;
    struct timeval tv = { 60, 0 }; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char* buf = malloc(400000);
    if (j->kind == 1) { uint32_t x = htonl(1000); __real_send(s, &x, 1 + vh_below(&r, 4), MSG_NOSIGNAL); }          /* stalls inside a frame */
    for (long seq = 0; j->kind == 0 || j->kind == 3; seq++) {
        size_t qn, rl = j->kind == 3 ? 200000 + vh_below(&r, 100000) : 1 + vh_below(&r, 3000); char* q = request(&r, conn, seq, vh_below(&r, 3000), rl, &qn); uint32_t x = htonl((uint32_t)qn);
        int bad = __real_send(s, &x, 4, MSG_NOSIGNAL) != 4 || __real_send(s, q, qn, MSG_NOSIGNAL) != (ssize_t)qn; free(q); if (bad) break;
        int k = recv_all(s, (char*)&x, 4); if (k == -2) { vh_viol("tcp:stop-open", "60 s after a request neither an answer nor the end of the connection"); break; } if (k) break;
        if (ntohl(x) != rl) { vh_viol("tcp:stop-frame", "answer frame of %u bytes where %zu were due", ntohl(x), rl); break; }
        k = recv_all(s, buf, rl); if (k) break;
        char* want = answer(conn, seq, rl); if (memcmp(want, buf, rl)) vh_viol("tcp:stop-bytes", "wrong answer bytes around a stop"); free(want);
        j->answers++; if (vh_chance(&r, 10)) vh_usleep((long)vh_below(&r, 500));
    }
    char c; int k = recv_all(s, &c, 1); if (k == -2) vh_viol("tcp:stop-open", "a connection stayed open for 60 s around a stop");  /* all: wait for the end */
    close(s); free(buf); return NULL;
}
static void* life(void* a) {
    vh_rng r; vh_rng_seed(&r, (uint64_t)(uintptr_t)a); mine = 1; world* w = calloc(1, sizeof *w); open_world(w, vh_chance(&r, 60) ? 0 : 20000);
    int rounds = 1 + (int)vh_below(&r, 2);
    for (int k = 0; k < rounds; k++) {
        atomic_store(&w->slow_us, vh_chance(&r, 30) ? (int)vh_below(&r, 3000) : 0);
        int n = (int)vh_below(&r, 9); pthread_t th[9]; ljob js[9]; for (int i = 0; i < n; i++) { js[i] = (ljob){ .w = w, .seed = vh_next(&r), .kind = (int)vh_below(&r, 4) }; pthread_create(&th[i], NULL, loader, &js[i]); }
        vh_usleep((long)vh_below(&r, vh_chance(&r, 50) ? 3000 : 200000));
        uint64_t t0 = vh_now_us(); int rc = mcp_transport_stop(w->t); uint64_t d = vh_now_us() - t0; atomic_store(&w->closed, 1); long c0 = atomic_load(&w->calls);
        if (rc != 0) vh_viol("tcp:stop-failed", "stop returned %d", rc);
        if (d > 30000000ULL) vh_viol("tcp:stop-slow", "stop took %llu ms", (unsigned long long)d / 1000);
        long ans = 0; for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); ans += js[i].answers; }
        if (atomic_load(&w->calls) != c0) vh_viol("tcp:after-stop", "message callback ran after stop had returned");
        vh_evals(1); vh_distinct(vh_hash(&ans, sizeof ans, (uint64_t)n)); vh_count("stops under load", 1); vh_count("answers before a stop", ans);
        if (k + 1 == rounds) break;
        atomic_store(&w->closed, 0); atomic_store(&w->slow_us, 0);
        if (mcp_transport_start(w->t, serve, w, NULL) != 0) { vh_viol("tcp:restart", "a stopped transport did not start again"); break; }
        long got; int ok = converse(w, &r, 3, SMALL, &got, 0, 0); if (ok == 0) vh_viol("tcp:restart-dead", "a restarted transport did not serve a connection (%ld of 3 answers)", got); vh_count("restarts", 1);
    }
    mcp_transport_destroy(w->t); free(w); return NULL;
}
static void m_stop(vh_rng* r) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c += 8) { pthread_t th[8]; for (int i = 0; i < 8; i++) pthread_create(&th[i], NULL, life, (void*)(uintptr_t)(vh_next(r) | 1)); for (int i = 0; i < 8; i++) pthread_join(th[i], NULL); }
}
/* descriptors and threads: nothing left behind by connections, nor by the transport */
static void m_leak(vh_rng* r) {
    { world* w = calloc(1, sizeof *w); open_world(w, 0); mcp_transport_destroy(w->t); free(w); }
    int fd0 = count_dir("/proc/self/fd"), th0 = count_dir("/proc/self/task");
    for (int c = 0; c < 2; c++) {
        world* w = calloc(1, sizeof *w); open_world(w, 0); int fdw = count_dir("/proc/self/fd"); int idle[6];
        run_clients(w, r, 4, 4, vh_cases / 8 + 1); int fd = 0;
        for (int i = 0; i < 100; i++) { fd = count_dir("/proc/self/fd"); if (fd <= fdw) break; vh_usleep(100000); }
        if (fd > fdw) vh_viol("tcp:fd-growth", "%d descriptors before %ld connections, %d 10 s after the last one was closed", fdw, atomic_load(&next_conn), fd);
        for (int i = 0; i < 6; i++) idle[i] = dial(w->port, 0);
        if (vh_chance(r, 50)) vh_usleep(20000);
        mcp_transport_destroy(w->t); free(w); for (int i = 0; i < 6; i++) if (idle[i] >= 0) close(idle[i]);
        int th = 0; for (int i = 0; i < 50; i++) { fd = count_dir("/proc/self/fd"); th = count_dir("/proc/self/task"); if (fd <= fd0 && th <= th0) break; vh_usleep(100000); }
        if (fd > fd0) vh_viol("tcp:fd-leak", "%d descriptors before the transport was created, %d after it was destroyed", fd0, fd);
        if (th > th0) vh_viol("tcp:thread-leak", "%d threads before the transport was created, %d after it was destroyed", th0, th);
        vh_evals(1); vh_distinct(vh_next(r)); vh_count("transport lives with descriptors and threads counted", 1);
    }
}
/* a whole server behind the transport */
typedef struct { vs_world* w; uint16_t port; uint64_t seed; long n, done; } sjob;
static void* sclient(void* a) {
    sjob* j = a; mine = 1; vh_rng r; vh_rng_seed(&r, j->seed); int s = -1; char* buf = malloc(MAXMSG + 1);
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        if (s < 0) { s = dial(j->port, 0); if (s < 0) { vh_viol("tcp:server-connect", "connection refused"); break; } struct timeval tv = { 90, 0 }; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); }
        vs_msg m; do { memset(&m, 0, sizeof m); vs_gen(j->w, &r, &m, 0); if (m.text.n > 0 && m.text.n < 200000) break; vs_msg_free(&m); } while (1);
        int expects = 0; if (m.batch && !m.n) expects = 1; for (int k = 0; k < m.n; k++) if (m.e[k].kind != VS_NOTE && m.e[k].kind != VS_RESP) expects = 1;
        uint32_t x = htonl((uint32_t)m.text.n); struct iovec v[2] = { { &x, 4 }, { m.text.p, m.text.n } }; struct msghdr h = { .msg_iov = v, .msg_iovlen = 2 };
        if (__real_sendmsg(s, &h, MSG_NOSIGNAL) != (ssize_t)(4 + m.text.n)) { vh_viol("tcp:server-send", "the server closed the connection"); break; }
        if (!expects) { vs_check(j->w, &m, NULL, 0, 0); vs_msg_free(&m); continue; }
        if (recv_all(s, (char*)&x, 4) || ntohl(x) > MAXMSG || recv_all(s, buf, ntohl(x))) { vh_viol("tcp:server-answer", "no complete answer to a message of %zu bytes", m.text.n); vs_msg_free(&m); break; }
        buf[ntohl(x)] = 0; vs_check(j->w, &m, buf, ntohl(x), 0); vs_msg_free(&m); j->done++;
        if (vh_chance(&r, 2)) { close(s); s = -1; }
    }
    if (s >= 0) close(s); free(buf); return NULL;
}
static void m_server(vh_rng* r) {
    vs_cfg c = { .thread_pool = 2, .key = vh_chance(r, 50) ? "k3y" : NULL }; mcp_transport_t* t = NULL; uint16_t port = 0;
    port = free_port(); t = mcp_transport_tcp_create("127.0.0.1", port, 0);
    vs_world* w = vs_open(r, &c, t); sjob js[8]; pthread_t th[8];
    atomic_store(&inject, 1);
    for (int i = 0; i < 8; i++) { js[i] = (sjob){ w, port, vh_next(r), vh_cases / 8 + 1, 0 }; pthread_create(&th[i], NULL, sclient, &js[i]); }
    for (int i = 0; i < 8; i++) { pthread_join(th[i], NULL); vh_evals(js[i].done); vh_count("server answers over TCP checked", js[i].done); vh_distinct(js[i].seed); }
    atomic_store(&inject, 0); vs_close(w);
}
/* several messages in one call, over a socket pair */
static void m_batch(vh_rng* r) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); size_t n = vh_chance(r, 15) ? 500 + vh_below(r, 700) : 1 + vh_below(r, 40); char** m = calloc(n, sizeof *m); uint32_t* l = calloc(n, 4); char** o = calloc(n + 1, sizeof *o); uint32_t* ol = calloc(n + 1, 4);
        for (size_t i = 0; i < n; i++) { l[i] = vh_chance(r, 10) ? 0 : (uint32_t)(1 + vh_below(r, n > 100 ? 60 : 1500)); m[i] = malloc(l[i] + 1); for (uint32_t k = 0; k < l[i]; k++) m[i][k] = (char)vh_next(r); }
        int buf = 4 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &buf, sizeof buf); setsockopt(sv[1], SOL_SOCKET, SO_RCVBUF, &buf, sizeof buf);
        mine = 0; atomic_store(&inject, vh_chance(r, 60));
        int rc = 0; size_t cnt = 0; volatile bool stop = false; int single = vh_chance(r, 30);
        if (single) { for (size_t i = 0; i < n && !rc; i++) rc = mcp_framing_send_message(sv[0], m[i], l[i], &stop); } else rc = mcp_framing_send_batch(sv[0], (const char**)m, l, n, &stop);
        if (rc != 0) vh_viol("framing:send", "sending %zu messages in %s failed", n, single ? "single calls" : "one call");
        shutdown(sv[0], SHUT_WR);
        while (!rc && cnt < n) { size_t k = 0; if (mcp_framing_recv_batch(sv[1], o + cnt, ol + cnt, 1 + vh_below(r, n - cnt), &k, 4096, &stop) != 0 || !k) break; cnt += k; }
        if (!rc && cnt != n) vh_viol("framing:count", "%zu messages sent, %zu received", n, cnt);
        for (size_t i = 0; i < cnt && i < n; i++) if (ol[i] != l[i] || (l[i] && memcmp(o[i], m[i], l[i]))) { vh_viol("framing:bytes", "message %zu of %zu arrived differently", i, n); break; }
        atomic_store(&inject, 0); mine = 1;
        vh_evals(1); vh_distinct(vh_hash(l, n * 4, 3)); vh_count("messages through the framing layer", (long)n);
        for (size_t i = 0; i < n; i++) free(m[i]); for (size_t i = 0; i < cnt; i++) free(o[i]); free(m); free(l); free(o); free(ol); close(sv[0]); close(sv[1]);
    }
    vh_count("interruptions and short counts injected", atomic_exchange(&injected, 0));
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); mine = 1; vh_rng r; vh_rng_seed(&r, vh_seed * 31 + 5); vh_high_fds(&r);
    if (!strcmp(vh_mode, "frag")) m_frag(&r, 0); else if (!strcmp(vh_mode, "hostile")) m_frag(&r, 1); else if (!strcmp(vh_mode, "stop")) m_stop(&r);
    else if (!strcmp(vh_mode, "leak")) m_leak(&r); else if (!strcmp(vh_mode, "server")) m_server(&r); else if (!strcmp(vh_mode, "batch")) m_batch(&r); else return 2;
    return vh_finish();
}
