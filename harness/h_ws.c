// USE: vsrv
/* The WebSocket server on the loopback interface, driven by raw socket clients.
   Mode call: a callback computes its answer from what it is handed; server: an MCP server behind the transport. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "vsrv.h"
#include "mcp_transport.h"
#include "mcp_websocket_transport.h"
#include "mcp_log.h"
#include <libwebsockets.h>
#define MAXREQ (1 << 18)
#define AHEAD 8

typedef struct { mcp_transport_t* t; uint16_t port; uint32_t max; _Atomic(unsigned char)* seen; _Atomic(int) closed; } world;
static _Atomic(long) next_id;
enum { ANSWER, ANSWER_ERR, NOTE };
static size_t text(char* p, size_t n, uint64_t h) {   /* printable, some UTF-8 */
    size_t k = 0; while (k < n) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; unsigned c = (unsigned)(h >> 33); if (c % 17 == 0 && k + 2 <= n) { p[k++] = (char)0xc3; p[k++] = (char)(0x80 + (c >> 8) % 64); } else { c = 32 + (c >> 8) % 95; p[k++] = (char)(c == '"' || c == '\\' ? '.' : c); } } p[k] = 0; return k;
}
static char* mkreq(vh_rng* r, long id, int what, size_t n, size_t rlen, size_t* out) {
    char* s = malloc(n + 300); char* pad = malloc(n + 1); text(pad, n, vh_next(r));
    int k = sprintf(s, "{\"jsonrpc\":\"2.0\",%s\"method\":\"m\",\"params\":[\"@%ld:%d:%zu:%lx@\",\"", what == NOTE ? "" : "\"id\":7,", id, what, rlen, vh_hash(pad, n, 5));
    memcpy(s + k, pad, n); strcpy(s + k + n, "\"]}"); *out = (size_t)k + n + 3; free(pad); return s;
}
static char* mkans(long id, size_t rlen, uint64_t hash) { char* s = malloc(rlen + 200); int k = sprintf(s, "{\"jsonrpc\":\"2.0\",\"id\":7,\"result\":\"@%ld@%lx@", id, hash); k += (int)text(s + k, rlen, (uint64_t)id * 77 + hash); strcpy(s + k, "\"}"); return s; }
static char* serve(void* u, const void* data, size_t size, int* err) {
    world* w = u; *err = 0; const char* p = data;
    if (atomic_load(&w->closed)) vh_viol("ws:after-stop", "message callback entered after the transport had been stopped");
    long id; int what; size_t rlen; unsigned long hash; int k = 0; const char* at = memchr(p, '@', size < 200 ? size : 200); char head[120];
    if (!at) { *err = -32600; return NULL; }
    size_t hn = size - (size_t)(at - p); if (hn > 119) hn = 119; memcpy(head, at, hn); head[hn] = 0;
    if (sscanf(head, "@%ld:%d:%zu:%lx@\",\"%n", &id, &what, &rlen, &hash, &k) != 4 || !k || id < 0 || id >= MAXREQ) { if (memmem(p, size, "jsonrpc", 7)) vh_viol("ws:message-bytes", "the callback was handed %zu bytes that are no message sent: \"%.60s\"", size, head); *err = -32600; return NULL; }
    const char* pad = at + k; size_t pn = size - (size_t)(pad - p);
    if (pn < 3 || memcmp(pad + pn - 3, "\"]}", 3) || vh_hash(pad, pn - 3, 5) != hash || p[0] != '{') vh_viol("ws:message-bytes", "message %ld: the %zu bytes handed to the callback are not those sent", id, size);
    if (p[size]) vh_viol("ws:message-end", "message %ld: the text handed to the callback does not end after its %zu bytes", id, size);
    if (atomic_fetch_add(&w->seen[id], 1)) vh_viol("ws:message-twice", "message %ld handed to the callback again", id);
    if (what == NOTE) return NULL;
    if (what == ANSWER_ERR) *err = -32601;
    return mkans(id, rlen, hash);
}
static uint16_t free_port(void) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; if (bind(s, (void*)&a, sizeof a) || getsockname(s, (void*)&a, &l)) { close(s); return 0; } close(s); return ntohs(a.sin_port); }
static mcp_transport_t* make(vh_rng* r, uint16_t port, uint32_t* max) {
    mcp_websocket_config_t c; memset(&c, 0, sizeof c); c.host = "127.0.0.1"; c.port = port; c.path = "/ws"; *max = 0;
    if (vh_chance(r, 60)) *max = c.max_clients = 6 + (uint32_t)vh_below(r, 40);
    if (vh_chance(r, 50)) c.segment_count = 1 + (uint32_t)vh_below(r, 5);
    if (vh_chance(r, 50)) c.buffer_pool_size = 1 + (uint32_t)vh_below(r, 6);
    if (vh_chance(r, 50)) c.buffer_size = (uint32_t[]){ 64, 4096, 5000, 8192, 12288, 65536 }[vh_below(r, 6)];
    return mcp_transport_websocket_server_create(&c);
}
static void settled(mcp_transport_t* t, uint32_t want, const char* when) {
    uint32_t act = 0, peak, total, rej; double up; uint64_t end = vh_now_us() + 20000000;
    for (;;) { if (mcp_transport_websocket_server_get_stats(t, &act, &peak, &total, &rej, &up)) return; if (act == want) break; if (vh_now_us() > end) { vh_viol("ws:count", "%s: %u connections counted as active, %u are open", when, act, want); return; } vh_usleep(5000); }
    vh_count("connection counts compared", 1);
}
/* ---- a WebSocket client ---- */
typedef struct { int s; unsigned char* in; size_t n, cap; unsigned char* msg; size_t mn; int in_msg, pings, pongs; } conn;
static int dial(uint16_t port) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; if (connect(s, (void*)&a, sizeof a)) { close(s); return -1; } int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return s; }
static void hang_up(conn* c, int how) { if (c->s < 0) return; if (how == 1) { struct linger l = { 1, 0 }; setsockopt(c->s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } else if (how == 2) shutdown(c->s, SHUT_WR); close(c->s); free(c->in); free(c->msg); memset(c, 0, sizeof *c); c->s = -1; }
static int put(vh_rng* r, int s, const char* p, size_t n, int style) {
    size_t at = 0; int naps = 0;
    while (at < n) { size_t k = n - at; if (style == 0) k = 1 + vh_below(r, n > 4000 ? 3000 : 20); else if (style == 1) k = 1 + vh_below(r, 70000); if (k > n - at) k = n - at; ssize_t g = send(s, p + at, k, MSG_NOSIGNAL); if (g < 0) { if (errno == EINTR) continue; return -1; } at += (size_t)g; if (style < 2 && at < n && naps < 40 && vh_chance(r, 30)) { naps++; vh_usleep((long)vh_below(r, 3000)); } }
    return 0;
}
static int fill_in(conn* c, int ms) { struct pollfd p = { .fd = c->s, .events = POLLIN }; int k = poll(&p, 1, ms); if (k == 0) return -2; if (c->cap - c->n < 70000) c->in = realloc(c->in, c->cap = c->cap * 2 + 140000); ssize_t g = recv(c->s, c->in + c->n, 65536, 0); if (g <= 0) return 0; c->n += (size_t)g; return 1; }
/* opens a connection; the server may still be busy getting rid of earlier ones */
static int handshake(vh_rng* r, conn* c, uint16_t port) {
    c->s = dial(port); if (c->s < 0) return 0;
    char h[500]; int k = sprintf(h, "GET %s HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n%sSec-WebSocket-Version: 13\r\n\r\n", vh_chance(r, 50) ? "/ws" : "/", port, vh_chance(r, 50) ? "Sec-WebSocket-Protocol: mcp-protocol\r\n" : "");
    put(r, c->s, h, (size_t)k, 2);
    for (;;) { unsigned char* e = c->n ? memmem(c->in, c->n, "\r\n\r\n", 4) : NULL; if (e) { size_t hn = (size_t)(e - c->in) + 4; if (c->n < 12 || memcmp(c->in, "HTTP/1.1 101", 12)) break; memmove(c->in, c->in + hn, c->n - hn); c->n -= hn; return 1; } if (fill_in(c, 20000) != 1) break; }
    hang_up(c, 0); return 0;
}
static size_t frame(vh_rng* r, unsigned char* o, int op, int fin, const char* p, size_t n) {
    size_t k = 0; unsigned char m[4]; o[k++] = (unsigned char)(op | (fin ? 0x80 : 0));
    if (n < 126) o[k++] = (unsigned char)(0x80 | n); else if (n < 65536) { o[k++] = 0xfe; o[k++] = (unsigned char)(n >> 8); o[k++] = (unsigned char)n; } else { o[k++] = 0xff; for (int i = 7; i >= 0; i--) o[k++] = (unsigned char)((uint64_t)n >> (8 * i)); }
    for (int i = 0; i < 4; i++) o[k++] = m[i] = (unsigned char)vh_next(r);
    for (size_t i = 0; i < n; i++) o[k++] = (unsigned char)p[i] ^ m[i & 3];
    return k;
}
/* one text message as one or more frames, pings in between */
static int say(vh_rng* r, conn* c, const char* q, size_t n, int parts) {
    unsigned char* o = malloc(n + 100 + (size_t)parts * 200); size_t k = 0, at = 0;
    for (int i = 0; i < parts; i++) {
        size_t m = i == parts - 1 ? n - at : vh_chance(r, 15) ? 0 : vh_below(r, n - at + 1); if (i == parts - 2 && vh_chance(r, 15)) m = n - at;
        k += frame(r, o + k, i ? 0 : 1, i == parts - 1, q + at, m); at += m;
        if (vh_chance(r, 10)) { char pay[130]; size_t pn = vh_below(r, 100); memset(pay, 'p', sizeof pay); k += frame(r, o + k, 9, 1, pay, pn); c->pings++; }
    }
    int g = put(r, c->s, (char*)o, k, (int)vh_below(r, 4)); free(o); return g;
}
/* 1: a whole text message in c->msg; 0: closed; -1: malformed; -2: silent for 30 s */
static int hear(conn* c) {
    for (;;) {
        size_t hn = 2, n = 0; int whole = 0;
        if (c->n >= 2) { n = c->in[1] & 127; if (c->in[1] & 0x80) return -1; if (n == 126) hn = 4; else if (n == 127) hn = 10; if (c->n >= hn) { if (hn > 2) { n = 0; for (size_t i = 2; i < hn; i++) n = n << 8 | c->in[i]; } whole = c->n - hn >= n; } }
        if (!whole) { int k = fill_in(c, 30000); if (k != 1) return k; continue; }
        int op = c->in[0] & 15, fin = c->in[0] >> 7, done = 0;
        if (c->in[0] & 0x70) return -1;
        if (op == 8) return 0;
        else if (op == 10) c->pongs++;
        else if (op == 1 || op == 0) { if ((op == 1) == c->in_msg) return -1; if (op == 1) c->mn = 0; c->msg = realloc(c->msg, c->mn + n + 1); memcpy(c->msg + c->mn, c->in + hn, n); c->mn += n; c->msg[c->mn] = 0; c->in_msg = !fin; done = fin; }
        else if (op != 9) return -1;
        memmove(c->in, c->in + hn + n, c->n - hn - n); c->n -= hn + n;
        if (done) return 1;
    }
}
static size_t pick(vh_rng* r) { int k = (int)vh_below(r, 100); return k < 50 ? vh_below(r, 400) : k < 70 ? 3900 + vh_below(r, 500) : k < 80 ? 7900 + vh_below(r, 500) : k < 95 ? vh_below(r, 40000) : vh_below(r, 400000); }
typedef struct { world* w; vs_world* vw; uint64_t seed; long n; int attack; long done, conns, retried, notes; conn kept; } job;
static int join_in(job* j, vh_rng* r, conn* c) {
    uint64_t end = vh_now_us() + 30000000;
    for (;;) { memset(c, 0, sizeof *c); c->s = -1; if (handshake(r, c, j->w->port)) { j->conns++; return 1; } j->retried++; if (vh_now_us() > end) break; vh_usleep(3000); }
    vh_viol("ws:refused", "no connection was accepted for 30 s although fewer are open than the server allows"); return 0;
}
typedef struct { long id; size_t n, rl; unsigned long hash; int parts; } asked;
/* a conversation: several messages ahead of their answers */
static int converse(job* j, vh_rng* r, conn* c, long count) {
    asked a[AHEAD]; int have = 0, from = 0; size_t out = 0; memset(a, 0, sizeof a);
    while (count > 0 || have) {
        if (count > 0 && have < AHEAD && out < 60000 && (!have || vh_chance(r, 60))) {
            long id = atomic_fetch_add(&next_id, 1); if (id >= MAXREQ) return 0;
            int what = vh_chance(r, 85) ? ANSWER : vh_chance(r, 50) ? ANSWER_ERR : NOTE; size_t n = pick(r), rl = pick(r), qn; char* q = mkreq(r, id, what, n, rl, &qn); int parts = vh_chance(r, 50) ? 1 : 2 + (int)vh_below(r, 6);
            asked* x = &a[(from + have) % AHEAD]; *x = (asked){ .id = id, .n = qn, .rl = rl, .parts = parts }; sscanf(strchr(q, '@'), "@%*d:%*d:%*u:%lx@", &x->hash);
            if (have && out + qn + rl > 60000) parts = 1;
            int g = say(r, c, q, qn, parts); free(q); count--;
            if (what != NOTE) { have++; out += qn + rl; } else j->notes++;
            if (vh_distinct(vh_hash(&n, sizeof n, rl * 64 + (size_t)parts * 4 + (size_t)what)) && id % 97 == 0) vh_sample("message of %zu bytes in %d frames, %d answers outstanding", qn, parts, have);
            if (g == 0) continue;
            if (what == NOTE) { vh_viol("ws:connection-lost", "connection closed by the server while a message was being sent"); return 0; }
        }
        if (!have) continue;
        asked* x = &a[from]; int k = hear(c);
        if (k != 1) { vh_viol(k == -2 ? "ws:no-answer" : "ws:connection-lost", "message %ld (%zu bytes in %d frames, %d answers outstanding): %s", x->id, x->n, x->parts, have, k == -2 ? "no answer after 30 s" : k == 0 ? "connection closed instead of an answer" : "malformed frame"); return 0; }
        char* want = mkans(x->id, x->rl, x->hash);
        if (c->mn != strlen(want) || memcmp(c->msg, want, c->mn)) { vh_viol("ws:answer", "message %ld (%zu bytes in %d frames): got %zu bytes, its answer has %zu: \"%.60s\"", x->id, x->n, x->parts, c->mn, strlen(want), (char*)c->msg); free(want); return 0; }
        free(want); out -= x->n + x->rl; from = (from + 1) % AHEAD; have--; j->done++;
    }
    return 1;
}
static int vs_converse(job* j, vh_rng* r, conn* c, long count) {
    while (count-- > 0) {
        vs_msg m; do { memset(&m, 0, sizeof m); vs_gen(j->vw, r, &m, 1); int ok = m.text.n > 0 && m.text.n < 200000 && !m.garbage; for (size_t i = 0; ok && i < m.text.n; i++) if ((unsigned char)m.text.p[i] >= 128 || !m.text.p[i]) ok = 0; if (ok) break; vs_msg_free(&m); } while (1);
        say(r, c, m.text.p, m.text.n, vh_chance(r, 50) ? 1 : 2 + (int)vh_below(r, 4));
        int expect = vs_answers(&m);
        if (expect) { int k = hear(c); if (k != 1) { vh_viol("ws:server-lost", "%s: %.80s", k == -2 ? "no answer after 30 s" : "connection closed", m.text.p); vs_msg_free(&m); return 0; } vs_check(j->vw, &m, (char*)c->msg, c->mn, 0); }
        vh_distinct(vh_hash(m.text.p, m.text.n, 3)); vs_msg_free(&m); j->done++;
    }
    return 1;
}
static void hostile(job* j, vh_rng* r) {
    conn c; char pad[3000]; for (size_t i = 0; i < sizeof pad; i++) pad[i] = (char)vh_next(r);
    if (vh_chance(r, 30)) {       /* no handshake, or half of one */
        memset(&c, 0, sizeof c); c.s = dial(j->w->port); if (c.s < 0) { j->retried++; return; }
        switch (vh_below(r, 4)) { case 0: put(r, c.s, pad, 1 + vh_below(r, 2900), 2); break; case 1: put(r, c.s, "GET /ws HTTP/1.1\r\nHost: x\r\nUpgr", 32, 2); break; case 2: put(r, c.s, "GET / HTTP/1.1\r\nHost: x\r\n\r\n", 27, 2); fill_in(&c, 2000); break; default: break; }
        if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 5000)); hang_up(&c, (int)vh_below(r, 3)); j->done++; return;
    }
    if (!join_in(j, r, &c)) return;
    unsigned char o[4000]; size_t k = 0; long id = atomic_fetch_add(&next_id, 1); size_t qn; char* q = id < MAXREQ ? mkreq(r, id, ANSWER, vh_below(r, 20000), vh_chance(r, 50) ? 300000 : 10, &qn) : NULL;
    switch (vh_below(r, 9)) {
        case 0: put(r, c.s, pad, 1 + vh_below(r, 2900), 2); break;                                                              /* noise as frames */
        case 1: k = frame(r, o, 1, 0, "abc", 3); k += frame(r, o + k, 1, 1, "def", 3); put(r, c.s, (char*)o, k, 2); break;      /* a new message inside one */
        case 2: k = frame(r, o, 0, 1, "abc", 3); put(r, c.s, (char*)o, k, 2); break;                                            /* continuation of nothing */
        case 3: k = frame(r, o, 1, 1, "\xff\xfe\xc0", 3); put(r, c.s, (char*)o, k, 2); break;                                   /* not UTF-8 */
        case 4: o[0] = 0x81; o[1] = 0xff; memset(o + 2, 0x7f, 12); put(r, c.s, (char*)o, 14, 2); put(r, c.s, pad, 2900, 2); break;   /* absurd length */
        case 5: o[0] = 0x81; o[1] = 3; memcpy(o + 2, "abc", 3); put(r, c.s, (char*)o, 5, 2); break;                             /* not masked */
        case 6: if (q) { unsigned char* f = malloc(qn + 30); k = frame(r, f, 1, vh_chance(r, 50), q, qn); put(r, c.s, (char*)f, vh_below(r, k), 2); free(f); } break;      /* cut off */
        case 7: if (q) say(r, &c, q, qn, 1 + (int)vh_below(r, 3)); break;                                                       /* does not wait for the answer */
        default: k = frame(r, o, 8, 1, "\x03\xe8", 2); put(r, c.s, (char*)o, k, 2); fill_in(&c, 3000); break;                     /* proper close */
    }
    free(q); if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 20000)); hang_up(&c, (int)vh_below(r, 3)); j->done++;
}
static void* client(void* p) {
    job* j = p; vh_rng r; vh_rng_seed(&r, j->seed); j->kept.s = -1;
    for (long left = j->n; left > 0 && vh_viol_count() < 5;) {
        if (j->attack) { hostile(j, &r); left--; continue; }
        long k = vh_chance(&r, 30) ? 0 : 1 + (long)vh_below(&r, 12); if (k > left) k = left; left -= k + 1;
        conn c; if (!join_in(j, &r, &c)) break;
        int fine = j->vw ? vs_converse(j, &r, &c, k) : converse(j, &r, &c, k);
        if (fine && left <= 0 && vh_chance(&r, 50)) { j->kept = c; break; }
        hang_up(&c, (int)vh_below(&r, 3)); if (!fine) break;
        vh_yield_noise(&r);
    }
    return NULL;
}
static uint32_t run_clients(world* w, vs_world* vw, vh_rng* r, int good, int bad, long each, conn* kept) {
    job js[64]; pthread_t th[64]; int n = good + bad; uint32_t open = 0; memset(js, 0, sizeof js);
    for (int i = 0; i < n; i++) { js[i] = (job){ .w = w, .vw = vw, .seed = vh_next(r), .n = each, .attack = i >= good }; pthread_create(&th[i], NULL, client, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(js[i].done); vh_count(js[i].attack ? "broken conversations" : "answers compared", js[i].done); vh_count("connections accepted", js[i].conns); vh_count("connections tried again", js[i].retried); vh_count("notifications", js[i].notes); if (js[i].kept.s >= 0) kept[open++] = js[i].kept; }
    return open;
}
static void m_call(vh_rng* r) {
    world* w = calloc(1, sizeof *w); w->seen = calloc(MAXREQ, 1); conn kept[64]; int up = 0;
    for (int i = 0; i < 20 && !up; i++) { w->port = free_port(); w->t = make(r, w->port, &w->max); if (!w->t) break; if (mcp_transport_start(w->t, serve, w, NULL) == 0) up = 1; else mcp_transport_destroy(w->t); }
    if (!up) { vh_viol("ws:start", "transport did not start on 20 free ports"); return; }
    int good = 1 + (int)vh_below(r, 10), bad = vh_chance(r, 70) ? 1 + (int)vh_below(r, 4) : 0; while (w->max && good + bad > (int)w->max - 1) { if (bad) bad--; else good--; }
    for (int round = 0; round < 2 && vh_viol_count() < 5; round++) {
        uint32_t open = run_clients(w, NULL, r, good, bad, vh_cases / 6 / (good + bad) + 1, kept);
        if (vh_viol_count() < 5) settled(w->t, open, "after a round of connections");
        job j = { .w = w }; for (uint32_t i = 0; i < open; i++) { if (vh_viol_count() < 5 && round == 0) { converse(&j, r, &kept[i], 2); } if (round == 0) hang_up(&kept[i], (int)vh_below(r, 3)); }
        if (round == 0 && vh_viol_count() < 5) settled(w->t, 0, "after all connections were closed");
        if (round == 1) {       /* stops with connections open */
            if (vh_chance(r, 50)) { mcp_transport_stop(w->t); atomic_store(&w->closed, 1); vh_usleep((long)vh_below(r, 5000)); }
            mcp_transport_destroy(w->t); w->t = NULL;
            for (uint32_t i = 0; i < open; i++) hang_up(&kept[i], 0);
        }
    }
    if (w->t) mcp_transport_destroy(w->t);
    free((void*)w->seen); free(w);
}
static void m_server(vh_rng* r) {
    vs_cfg c = { .thread_pool = 2, .key = vh_chance(r, 50) ? "k3y" : NULL }; world w; memset(&w, 0, sizeof w); conn kept[64];
    w.port = free_port(); mcp_transport_t* t = make(r, w.port, &w.max); vs_world* vw = vs_open(r, &c, t);
    uint32_t open = run_clients(&w, vw, r, 1 + (int)vh_below(r, 4), vh_chance(r, 50) ? 1 : 0, vh_cases / 5 + 1, kept);
    vs_close(vw); mcp_transport_destroy(t); for (uint32_t i = 0; i < open; i++) hang_up(&kept[i], 0);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); lws_set_log_level(0, NULL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "call")) for (int i = 0; i < 3 && vh_viol_count() < 5; i++) m_call(&r);
    else m_server(&r);
    return vh_finish();
}
