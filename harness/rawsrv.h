/* A TCP server for length-prefixed frames whose answers are planned by the harness. */
#ifndef RAWSRV_H
#define RAWSRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#define RAW_MAX (1024 * 1024)
#ifndef RAW_THREAD
#define RAW_THREAD
#endif
enum { RAW_WHOLE = 0, RAW_CUT = 1000, RAW_BADLEN };      /* what follows an item: nothing, the connection breaks within it, a nonsensical length */
typedef struct item { struct item* next; uint64_t due; char* p; size_t n; int then; } item;
typedef struct conn { struct world* w; int s; pthread_t rd, wr; pthread_mutex_t m; pthread_cond_t c; item* q; int over; uint64_t seed; struct conn* next; } conn;
typedef struct world { int l; uint16_t port; pthread_t th; pthread_mutex_t m; conn* conns; _Atomic(int) stop, slow; _Atomic(long) accepts, drops, frames, open, open_max; _Atomic(uint64_t) last_accept, last_drop; uint64_t seed; int (*on_frame)(conn*, char* body, size_t n, vh_rng*); void* user; } world;
static void text(char* p, size_t n, uint64_t h) { for (size_t k = 0; k < n; k++) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; unsigned c = 32 + (unsigned)(h >> 40) % 95; p[k] = (char)(c == '"' || c == '\\' || c == '@' ? '.' : c); } p[n] = 0; }
static void push(conn* c, const char* body, size_t n, long us, int then) {
    item* it = calloc(1, sizeof *it); it->p = malloc(n + 4); uint32_t x = htonl((uint32_t)n); memcpy(it->p, &x, 4); memcpy(it->p + 4, body, n); it->n = n + 4; it->due = vh_now_us() + (uint64_t)us; it->then = then;
    pthread_mutex_lock(&c->m); if (c->over) { pthread_mutex_unlock(&c->m); free(it->p); free(it); return; } it->next = c->q; c->q = it; pthread_cond_signal(&c->c); pthread_mutex_unlock(&c->m);
}
static void drop(conn* c, int hard) { world* w = c->w; pthread_mutex_lock(&c->m); int first = !c->over; c->over = 1; pthread_cond_signal(&c->c); pthread_mutex_unlock(&c->m); if (first) { atomic_store(&w->last_drop, vh_now_us()); atomic_fetch_add(&w->drops, 1); } if (hard) { struct linger l = { 1, 0 }; setsockopt(c->s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } shutdown(c->s, SHUT_RDWR); }
static void* writer(void* a) {
    conn* c = a; RAW_THREAD vh_rng r; vh_rng_seed(&r, c->seed + 1); pthread_mutex_lock(&c->m);
    while (!c->over) {
        item** b = NULL; for (item** p = &c->q; *p; p = &(*p)->next) if (!b || (*p)->due < (*b)->due) b = p;
        uint64_t now = vh_now_us();
        if (!b || (*b)->due > now) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); uint64_t d = b ? (*b)->due - now : 500000; if (d > 500000) d = 500000; ts.tv_nsec += (long)d * 1000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; } pthread_cond_timedwait(&c->c, &c->m, &ts); continue; }
        item* it = *b; *b = it->next; pthread_mutex_unlock(&c->m);
        size_t at = 0; int style = (int)vh_below(&r, 3); size_t upto = it->then == RAW_CUT ? vh_below(&r, it->n) : it->n;
        while (at < upto) { size_t k = upto - at; if (style == 0) k = 1 + vh_below(&r, upto > 4000 ? 5000 : 9); if (k > upto - at) k = upto - at; ssize_t g = send(c->s, it->p + at, k, MSG_NOSIGNAL); if (g <= 0) { if (g < 0 && errno == EINTR) continue; break; } at += (size_t)g; if (style == 0 && vh_chance(&r, 10)) vh_usleep((long)vh_below(&r, 400)); }
        if (it->then == RAW_CUT) drop(c, vh_chance(&r, 30));
        if (it->then == RAW_BADLEN) { uint32_t y = htonl(0xffffffffu >> vh_below(&r, 10)); pthread_mutex_lock(&c->m); c->over = 1; pthread_mutex_unlock(&c->m); atomic_store(&c->w->last_drop, vh_now_us()); atomic_fetch_add(&c->w->drops, 1); send(c->s, &y, 4, MSG_NOSIGNAL); }     /* and left open */
        free(it->p); free(it); pthread_mutex_lock(&c->m);
    }
    while (c->q) { item* it = c->q; c->q = it->next; free(it->p); free(it); }
    pthread_mutex_unlock(&c->m); return NULL;
}
static int get(int s, char* p, size_t n) { size_t at = 0; while (at < n) { ssize_t g = recv(s, p + at, n - at, 0); if (g < 0 && errno == EINTR) continue; if (g <= 0) return at ? -1 : -2; at += (size_t)g; } return 0; }
static void* reader(void* a) {
    conn* c = a; world* w = c->w; RAW_THREAD vh_rng r; vh_rng_seed(&r, c->seed); char* b = malloc(RAW_MAX * 2 + 1);
    for (;;) {
        uint32_t x; if (get(c->s, (char*)&x, 4)) break; x = ntohl(x);
        if (x == 0 || x > RAW_MAX * 2) { if (!c->over) vh_viol("raw:frame", "a frame announces %u bytes", x); break; }
        if (atomic_load(&w->slow) && x > 20000) vh_usleep((long)vh_below(&r, 2000));
        if (get(c->s, b, x)) break;
        b[x] = 0; if (b[x - 1] == 0) x--;
        atomic_fetch_add(&w->frames, 1);
        if (w->on_frame(c, b, x, &r)) break;
    }
    drop(c, 0); atomic_fetch_sub(&w->open, 1); free(b); return NULL;
}
static void* acceptor(void* a) {
    world* w = a; RAW_THREAD vh_rng r; vh_rng_seed(&r, w->seed);
    while (!atomic_load(&w->stop)) {
        struct pollfd p = { .fd = w->l, .events = POLLIN }; if (poll(&p, 1, 50) <= 0) continue; int s = accept(w->l, NULL, NULL); if (s < 0) continue;
        int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        conn* c = calloc(1, sizeof *c); c->w = w; c->s = s; c->seed = vh_next(&r); pthread_mutex_init(&c->m, NULL); pthread_cond_init(&c->c, NULL);
        pthread_mutex_lock(&w->m); c->next = w->conns; w->conns = c; pthread_mutex_unlock(&w->m); atomic_store(&w->last_accept, vh_now_us()); atomic_fetch_add(&w->accepts, 1); { long o = atomic_fetch_add(&w->open, 1) + 1; if (o > atomic_load(&w->open_max)) atomic_store(&w->open_max, o); }
        pthread_create(&c->rd, NULL, reader, c); pthread_create(&c->wr, NULL, writer, c);
    }
    return NULL;
}
static int listen_on(uint16_t port, uint16_t* got) { int l = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t n = sizeof a; if (bind(l, (void*)&a, sizeof a) || listen(l, 64) || getsockname(l, (void*)&a, &n)) { close(l); return -1; } *got = ntohs(a.sin_port); return l; }
static void server_open(world* w, vh_rng* r, uint16_t port, int (*on_frame)(conn*, char*, size_t, vh_rng*)) { memset(w, 0, sizeof *w); w->seed = vh_next(r); w->on_frame = on_frame; pthread_mutex_init(&w->m, NULL); for (int i = 0; i < 50 && (w->l = listen_on(port, &w->port)) < 0; i++) vh_usleep(100000); if (w->l < 0) { fprintf(stdout, "no port\n"); exit(3); } pthread_create(&w->th, NULL, acceptor, w); }
static void server_close(world* w) {
    atomic_store(&w->stop, 1); pthread_join(w->th, NULL); close(w->l);
    while (w->conns) { conn* c = w->conns; w->conns = c->next; drop(c, 0); pthread_join(c->rd, NULL); pthread_join(c->wr, NULL); close(c->s); pthread_mutex_destroy(&c->m); pthread_cond_destroy(&c->c); free(c); }
}
#endif
