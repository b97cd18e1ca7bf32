// LINK: -Wl,--wrap=mcp_sleep_ms
/* Event streams of the plain HTTP server: events sent by several threads while raw socket clients read them, vanish and resume.
   Mode server: exactly-once and ordered delivery across reconnects; over: more events missed than are kept; pair: the HTTP client behind a proxy that cuts its streams. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "sseref.h"
#include "mcp_transport.h"
#include "mcp_http_transport.h"
#include "mcp_http_client_transport.h"
#include "mcp_log.h"
#include <libwebsockets.h>

#define MAXE 20000
#define MAXC 24
typedef struct { char* type; char* data; char* want; size_t wn; int sess; long begin, done; _Atomic(long) id; int ok; } event;
static event E[MAXE]; static _Atomic(long) n_events, clk, finishing; static mcp_transport_t* T; static uint16_t port;
/* names of which some begin or end others */
static const char *TYPES[5], *SESS[3]; static const char* all_types[] = { "a", "ab", "A", "b", "update", "update.b", "pdate", "\xc3\xa9v\xc3\xa9nement", "\xc3\xa9v", "echo", "Update" }; enum { NTYPES = sizeof all_types / sizeof *all_types }; static const char* all_sess[] = { "s1", "s", "s12", "1", "Sess-2", "0123456789abcdef", "0123456789abcdef0" };
static const char* nearby(vh_rng* r, const char* t) { static const int near[][2] = { { 0, 2 }, { 0, 2 }, { 0, 1 }, { 4, 5 }, { 4, 6 }, { 4, 10 }, { 7, 8 } }; for (int k = 0; k < 20; k++) { const int* p = near[vh_below(r, 7)]; if (all_types[p[0]] == t) return all_types[p[1]]; if (all_types[p[1]] == t) return all_types[p[0]]; } return all_types[vh_below(r, NTYPES)]; }
static void pick_names(vh_rng* r) { for (int i = 1; i < 5; i++) TYPES[i] = NULL; for (int i = 1; i < 5; i++) for (int ok = 0; !ok;) { TYPES[i] = i % 2 == 0 && vh_chance(r, 60) ? nearby(r, TYPES[i - 1]) : all_types[vh_below(r, NTYPES)]; ok = 1; for (int k = 1; k < i; k++) if (TYPES[k] == TYPES[i]) ok = 0; } for (int i = 0; i < 3; i++) for (int ok = 0; !ok;) { SESS[i] = all_sess[vh_below(r, 7)]; ok = 1; for (int k = 0; k < i; k++) if (SESS[k] == SESS[i]) ok = 0; } }

static char* gen_data(vh_rng* r, long k, size_t* n) {
    size_t len = vh_chance(r, 70) ? vh_below(r, 60) : vh_chance(r, 80) ? vh_below(r, 3000) : vh_below(r, 60000); char* s = malloc(len + 60); size_t o = (size_t)sprintf(s, "@%ld@", k); int lines = vh_chance(r, 40);
    for (size_t i = 0; i < len; i++) { uint64_t x = vh_next(r) >> 20; int c = (int)(x % 400); if (c < 6 && lines) { s[o++] = c < 3 ? '\n' : '\r'; if (c == 5) s[o++] = '\n'; } else if (c < 10) s[o++] = ' '; else if (c < 12) s[o++] = ':'; else if (c < 13) s[o++] = '\t'; else if (c < 16) { s[o++] = (char)0xe2; s[o++] = (char)0x82; s[o++] = (char)0xac; } else s[o++] = (char)(33 + c % 94); if (o > len + 40) break; }
    s[o] = 0; *n = o; return s;
}
static char* normal(const char* s, size_t n, size_t* on) { char* o = malloc(n + 1); size_t k = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '\r') { o[k++] = '\n'; if (s[i + 1] == '\n') i++; } else o[k++] = s[i]; } o[k] = 0; *on = k; return o; }
static long send_one(vh_rng* r, int sess, int plain) {
    long k = atomic_fetch_add(&n_events, 1); if (k >= MAXE) return -1; event* e = &E[k]; size_t n; char* d = gen_data(r, k, &n); e->type = plain ? NULL : (char*)TYPES[vh_below(r, 5)]; e->sess = sess; e->data = d; e->want = normal(d, n, &e->wn);
    e->begin = atomic_fetch_add(&clk, 1); e->ok = mcp_http_transport_send_sse(T, e->type, d, sess < 0 ? NULL : SESS[sess]); e->done = atomic_fetch_add(&clk, 1);
    if (e->ok) vh_viol("sse:refused", "event %ld of type %s for session %d with %zu bytes was refused", k, e->type ? e->type : "(none)", sess, n);
    return k;
}
typedef struct { pthread_t th; uint64_t seed; long n; int sess, filter, pace; long t0; long last_id; char* got; long count, reconnects, replays, optional; int seen_end, cut, connected, greeted; long conn_events; } client;
static long end_k[4];   /* the last event of each kind: broadcast, then per session */
static void on_event(void* u, const char* id, const char* type, const char* data, size_t n) {
    client* c = u; if (!c->connected && !id && n == 9 && !memcmp(data, "connected", 9)) { c->connected = 1; if (!c->last_id) c->t0 = atomic_fetch_add(&clk, 1); return; }
    long k = -1; int o = 0; if (n < 3 || sscanf(data, "@%ld@%n", &k, &o) != 1 || !o || k < 0 || k >= atomic_load(&n_events) || k >= MAXE) { vh_viol("sse:invented", "a client received an event nobody sent: %.80s", data); return; }
    event* e = &E[k]; long i = id ? atol(id) : 0; vh_distinct(vh_hash(e->type ? e->type : "", e->type ? strlen(e->type) : 0, (uint64_t)(c->filter * 8 + c->sess + 1) * 131 + (c->conn_events < 6 ? (uint64_t)c->conn_events : 6) * 17 + (uint64_t)(i - c->last_id < 9 ? i - c->last_id : 9)) ^ (n < 64 ? n : 64 + n / 512));
    if (e->wn != n || memcmp(e->want, data, n)) { size_t x = 0; while (x < n && x < e->wn && data[x] == e->want[x]) x++; vh_viol("sse:data", "event %ld (%zu bytes) arrived with %zu bytes, different from byte %zu", k, e->wn, n, x); }
    if (!!type != !!e->type || (type && strcmp(type, e->type))) vh_viol("sse:type", "event %ld of type %s arrived with type %s", k, e->type ? e->type : "(none)", type ? type : "(none)");
    if (!id || i <= 0) { vh_viol("sse:id", "event %ld arrived with the id %s", k, id ? id : "(none)"); return; }
    long was = 0; if (!atomic_compare_exchange_strong(&e->id, &was, i) && was != i) vh_viol("sse:id", "event %ld arrived with id %ld at one client and %ld at another", k, was, i);
    if (c->got[k]) vh_viol("sse:repeated", "event %ld arrived twice at one client (%s)", k, c->reconnects ? "which resumed" : "which never left");
    if (i <= c->last_id) vh_viol("sse:order", "event with id %ld arrived after one with id %ld", i, c->last_id);
    if (e->sess >= 0 && e->sess != c->sess) vh_viol("sse:session", "an event for session %d arrived at a client of session %d", e->sess, c->sess);
    if (c->filter && e->type && strcmp(e->type, TYPES[c->filter])) vh_viol("sse:filter", "an event of type %s arrived at a client that asked for %s", e->type, TYPES[c->filter]);
    c->got[k] = 1; c->last_id = i; c->count++; c->conn_events++; if (c->conn_events == 1 && c->reconnects) c->replays++;
}
static int dial(int small) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (small) { int v = 1 << 18; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); } struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; if (connect(s, (void*)&a, sizeof a)) { close(s); return -1; } return s; }
static int get(vh_rng* r, int s, client* c) {
    char q[600], f[64] = "", lh[60] = ""; int n = 0, header = vh_chance(r, 50); if (header && c->last_id) sprintf(lh, "%s: %ld\r\n", vh_chance(r, 50) ? "Last-Event-ID" : "last-event-id", c->last_id); q[0] = 0; char sep = '?';
    if (c->filter) { const char* t = TYPES[c->filter]; char* o = f; for (; *t; t++) o += (*t & 0x80) ? sprintf(o, "%%%02X", (unsigned char)*t) : sprintf(o, "%c", *t); }
    static const char* other[] = { "x_session_id=main", "myfilter=none", "old_lastEventId=2000000", "v=1" }; int order = (int)vh_below(r, 3), extra = vh_chance(r, 30) ? (int)vh_below(r, 3) : -1; for (int i = 0; i < 3; i++) { int w = (i + order) % 3; if (i == extra) { n += sprintf(q + n, "%c%s", sep, other[vh_below(r, 4)]); sep = '&'; } if (w == 0 && c->last_id && !header) { n += sprintf(q + n, "%clastEventId=%ld", sep, c->last_id); sep = '&'; } if (w == 1 && c->sess >= 0) { n += sprintf(q + n, "%csession_id=%s", sep, SESS[c->sess]); sep = '&'; } if (w == 2 && c->filter) { n += sprintf(q + n, "%cfilter=%s", sep, f); sep = '&'; } }
    char m[900]; int k = snprintf(m, sizeof m, "GET /events%s HTTP/1.1\r\nHost: x\r\n%sAccept: text/event-stream\r\n\r\n", q, lh); for (int i = 0; i < k;) { int x = vh_chance(r, 80) ? k - i : 1 + (int)vh_below(r, (uint64_t)(k - i)); ssize_t z = send(s, m + i, (size_t)x, MSG_NOSIGNAL); if (z <= 0) return -1; i += (int)z; } return 0;
}
static void hang_up(int s, int hard) { if (hard) { struct linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(s); }
static void* reader(void* a) {
    client* c = a; vh_rng r; vh_rng_seed(&r, c->seed);
    while (!c->seen_end && vh_viol_count() < 5) {
        if (atomic_load(&finishing)) { if (!c->last_id) { c->t0 = -1; break; } if (c->got[end_k[c->sess + 1]]) break; }   /* nothing seen, so nothing to resume from */
        int s = dial(c->pace == 2); if (s < 0) { vh_viol("sse:connect", "cannot connect to the server"); break; }
        c->connected = 0; c->conn_events = 0; if (!c->last_id) c->t0 = -1; sse_ref p = { .event = on_event, .u = c }; char* b = malloc(70000); char* head = malloc(80000); size_t hn = 0; int body = 0; uint64_t idle = vh_now_us(); long limit = atomic_load(&finishing) ? -1 : vh_chance(&r, 25) ? -1 : (long)vh_below(&r, 60000);
        if (get(&r, s, c)) { hang_up(s, 0); free(b); free(head); continue; }
        for (;;) {
            struct pollfd pf = { .fd = s, .events = POLLIN }; int k = poll(&pf, 1, 100); if (atomic_load(&finishing) && c->got[end_k[c->sess + 1]]) c->seen_end = 1; if (c->seen_end || vh_viol_count() >= 5) break;
            if (k == 0) { if (vh_now_us() - idle > 40000000) { vh_viol("sse:lost", "a client of session %d waited 40 s for the last event (%ld events so far, %ld reconnects, %s)", c->sess, c->count, c->reconnects, body ? "stream open" : "no response"); break; } if (!atomic_load(&finishing)) idle = vh_now_us(); if (limit >= 0 && vh_chance(&r, 10)) break; continue; }
            size_t want = c->pace == 0 ? 69000 : 1 + vh_below(&r, c->pace == 1 ? 9000 : 2000); ssize_t n = recv(s, b, want, 0);
            if (n <= 0) { if (limit == -1 || limit > 0) vh_viol("sse:closed", "the server ended the event stream of a client (%zd, %s) after %ld events", n, n ? strerror(errno) : "end", c->count); break; }
            idle = vh_now_us(); char* d = b; if (c->pace == 2 && vh_chance(&r, 2)) vh_usleep((unsigned)vh_below(&r, 3000));
            if (!body) { if (hn + (size_t)n > 80000) { vh_viol("sse:head", "no end of the response header"); break; } size_t o = hn; memcpy(head + hn, d, (size_t)n); hn += (size_t)n; char* e = memmem(head, hn, "\r\n\r\n", 4); if (!e) continue; if (memcmp(head, "HTTP/1.1 200", 12) || !memmem(head, (size_t)(e - head), "text/event-stream", 17)) { vh_viol("sse:head", "response header %.60s", head); break; } size_t eaten = (size_t)(e + 4 - head) - o; d += eaten; n -= (ssize_t)eaten; body = 1; }
            if (limit >= 0 && n > limit) n = limit; sse_feed(&p, d, (size_t)n); if (limit >= 0 && (limit -= (long)n) <= 0 && !atomic_load(&finishing)) break; if (limit >= 0 && atomic_load(&finishing)) { if (limit <= 0) break; }
        }
        sse_ref_free(&p); free(b); free(head); hang_up(s, (int)vh_below(&r, 2)); if (!c->seen_end) c->reconnects++; if (vh_chance(&r, 50)) vh_usleep((unsigned)vh_below(&r, 20000));
    }
    return NULL;
}
typedef struct { pthread_t th; uint64_t seed; long n; int slow; _Atomic(int)* stop; } sender;
static void* send_many(void* a) { sender* j = a; vh_rng r; vh_rng_seed(&r, j->seed); int pace = j->slow ? 1 + (int)vh_below(&r, 2) : (int)vh_below(&r, 3); for (long i = 0; i < j->n && vh_viol_count() < 5; i++) { send_one(&r, vh_chance(&r, 60) ? -1 : (int)vh_below(&r, 3), 0); if (pace && vh_chance(&r, 30)) vh_usleep((unsigned)vh_below(&r, pace == 1 ? 300 : 3000)); if (vh_chance(&r, 1)) { if (!mcp_http_transport_send_sse(T, "a\nb", "x", NULL) || !mcp_http_transport_send_sse(T, "a", "x\x01y", NULL)) vh_viol("sse:accepted", "an event that cannot be sent was accepted"); } } return NULL; }
static void* lurk(void* a) { sender* j = a; vh_rng r; vh_rng_seed(&r, j->seed); while (!atomic_load(j->stop)) { int s = dial(1); if (s < 0) break; client c = { .sess = (int)vh_below(&r, 4) - 1, .last_id = vh_chance(&r, 80) ? 0 : 1 + (long)vh_below(&r, (uint64_t)atomic_load(&n_events) + 5) }; if (!get(&r, s, &c)) vh_usleep(5000 + (unsigned)vh_below(&r, 60000)); hang_up(s, (int)vh_below(&r, 2)); } return NULL; }
static char* refuse(void* u, const void* d, size_t n, int* e) { (void)u; (void)d; (void)n; *e = -32600; return NULL; }
static void open_server(vh_rng* r) {
    pick_names(r);
    for (int i = 0; i < 20; i++) {
        int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; if (bind(s, (void*)&a, sizeof a) || getsockname(s, (void*)&a, &l)) exit(3); close(s); port = ntohs(a.sin_port);
        mcp_http_config_t c; memset(&c, 0, sizeof c); c.host = "127.0.0.1"; c.port = port; c.enable_cors = vh_chance(r, 50); c.timeout_ms = 30000; T = mcp_transport_http_create(&c); if (!T) exit(3); if (!mcp_transport_start(T, refuse, NULL, NULL)) return; mcp_transport_destroy(T);
    } exit(3);
}
static void clear_events(void) { for (long i = 0; i < atomic_load(&n_events) && i < MAXE; i++) { free(E[i].data); free(E[i].want); memset(&E[i], 0, sizeof E[i]); } atomic_store(&n_events, 0); atomic_store(&finishing, 0); }
static void judge_order(void) {
    long n = atomic_load(&n_events), m = 0; long* by = calloc((size_t)MAXE * 2, sizeof *by); long max = 0; if (n > MAXE) n = MAXE;
    for (long k = 0; k < n; k++) { long i = atomic_load(&E[k].id); if (!i) continue; if (i >= MAXE * 2) continue; if (by[i]) vh_viol("sse:id", "events %ld and %ld have the same id %ld", by[i] - 1, k, i); by[i] = k + 1; if (i > max) max = i; m++; }
    long mind = 1L << 60, at = 0; for (long i = max; i > 0; i--) if (by[i]) { event* e = &E[by[i] - 1]; if (mind < e->begin) { vh_viol("sse:order", "event %ld was sent after event %ld but has the smaller id", by[i] - 1, at); break; } if (e->done < mind) { mind = e->done; at = by[i] - 1; } }
    free(by); vh_count("events with an id seen", m);
}
static void finish(vh_rng* r, client* cs, int nc) {
    for (int i = 0; i < 4; i++) end_k[i] = send_one(r, i - 1, 1);
    atomic_store(&finishing, 1);
    for (int i = 0; i < nc; i++) pthread_join(cs[i].th, NULL);
}
static void m_server(vh_rng* r) {
    open_server(r); int nc = 2 + (int)vh_below(r, 8), ns = 1 + (int)vh_below(r, 4), nl = vh_chance(r, 60) ? 1 + (int)vh_below(r, 3) : 0; client cs[MAXC]; sender ss[8], ls[4]; _Atomic(int) stop = 0; memset(cs, 0, sizeof cs); long per = vh_cases / ns; if (per * ns > 4000) per = 4000 / ns;
    for (int i = 0; i < nc; i++) { cs[i] = (client){ .seed = vh_next(r), .sess = vh_chance(r, 50) ? -1 : (int)vh_below(r, 3), .filter = vh_chance(r, 70) ? 0 : 1 + (int)vh_below(r, 4), .pace = (int)vh_below(r, 3), .got = calloc(MAXE, 1) }; }
    for (int i = 0; i < nl; i++) { ls[i] = (sender){ .seed = vh_next(r), .stop = &stop }; pthread_create(&ls[i].th, NULL, lurk, &ls[i]); }
    for (int i = 0; i < nc; i++) pthread_create(&cs[i].th, NULL, reader, &cs[i]); vh_usleep((unsigned)vh_below(r, 30000));
    for (int i = 0; i < ns; i++) { ss[i] = (sender){ .seed = vh_next(r), .n = per }; pthread_create(&ss[i].th, NULL, send_many, &ss[i]); } for (int i = 0; i < ns; i++) pthread_join(ss[i].th, NULL);
    finish(r, cs, nc); atomic_store(&stop, 1); for (int i = 0; i < nl; i++) pthread_join(ls[i].th, NULL);
    long n = atomic_load(&n_events); for (int i = 0; i < nc && vh_viol_count() < 5; i++) {
        client* c = &cs[i]; long due = 0; for (long k = 0; k < n && k < MAXE; k++) { event* e = &E[k]; int match = (e->sess < 0 ? c->sess < 0 : e->sess == c->sess) && !(c->filter && e->type && strcmp(e->type, TYPES[c->filter])); if (!match || c->t0 < 0 || e->begin < c->t0 || k > end_k[c->sess + 1]) continue; due++; if (!c->got[k]) { vh_viol("sse:lost", "event %ld (id %ld, %s) never arrived at a client of session %d that had connected before it was sent and left %ld times (last id %ld)", k, atomic_load(&e->id), e->type ? e->type : "no type", c->sess, c->reconnects, c->last_id); break; } }
        vh_evals(c->count); vh_count("events received", c->count); vh_count("events that had to arrive", due); vh_count("reconnects", c->reconnects); vh_count("reconnects with a replay", c->replays); if (i < 3) vh_sample("client of session %d, filter %d: %ld events, %ld reconnects, %ld had to arrive", c->sess, c->filter, c->count, c->reconnects, due);
    }
    judge_order(); for (int i = 0; i < nc; i++) free(cs[i].got); mcp_transport_stop(T); mcp_transport_destroy(T); clear_events();
}
/* more events missed than the server keeps: what comes is the newest ones, without a gap */
static void m_over(vh_rng* r) {
    open_server(r); client c = { .seed = vh_next(r), .sess = vh_chance(r, 50) ? -1 : 1, .pace = 0, .got = calloc(MAXE, 1), .last_id = 1 + (long)vh_below(r, 30) }; long seen = c.last_id; int big = vh_chance(r, 50); long n = big ? 5000 + (long)vh_below(r, 6000) : 500 + (long)vh_below(r, 4000); 
    for (long i = 0; i < n; i++) { long k = atomic_fetch_add(&n_events, 1); event* e = &E[k]; char t[60]; int l = sprintf(t, "@%ld@%lx", k, (unsigned long)vh_next(r)); e->data = strdup(t); e->want = strdup(t); e->wn = (size_t)l; e->type = (char*)TYPES[vh_below(r, 5)]; e->sess = vh_chance(r, 50) ? -1 : (int)vh_below(r, 3); e->begin = atomic_fetch_add(&clk, 1); if (mcp_http_transport_send_sse(T, e->type, e->data, e->sess < 0 ? NULL : SESS[e->sess])) vh_viol("sse:refused", "event refused"); e->done = atomic_fetch_add(&clk, 1); }
    pthread_create(&c.th, NULL, reader, &c); finish(r, &c, 1); long first = -1, got = 0, total = atomic_load(&n_events); 
    for (long k = 0; k <= end_k[c.sess + 1]; k++) { event* e = &E[k]; if (e->sess != c.sess) continue; /* ids are handed out in order: event k has id k + 1 */ if (c.got[k]) { if (first < 0) first = k; got++; if (k + 1 <= seen) vh_viol("sse:repeated", "event with id %ld was replayed to a client that had seen id %ld", k + 1, seen); } else if (first >= 0) { vh_viol("sse:lost", "event %ld is missing between replayed ones", k); break; } else if (k + 1 > seen && total <= 4900) { vh_viol("sse:lost", "event %ld was not replayed although only %ld events were ever sent", k, total); break; } }
    if (got < 2) vh_viol("sse:lost", "nothing was replayed"); vh_evals(got); vh_distinct(vh_seed * 1000 + (uint64_t)(first + got)); vh_count("events replayed", got); vh_count(big ? "replays of a full store" : "replays of a partly filled store", 1); judge_order(); free(c.got); mcp_transport_stop(T); mcp_transport_destroy(T); clear_events();
}
/* the HTTP client behind a proxy that cuts its streams */
static int listen_any(uint16_t* p) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; if (bind(s, (void*)&a, sizeof a) || listen(s, 64) || getsockname(s, (void*)&a, &l)) exit(3); *p = ntohs(a.sin_port); return s; }
typedef struct { int c; uint64_t seed; long limit; } tube; static _Atomic(long) pipes, pipe_cuts; static _Atomic(int) proxy_stop;
static void* pump(void* a) {
    tube* j = a; vh_rng r; vh_rng_seed(&r, j->seed); int u = dial(0); char* b = malloc(70000); long left = j->limit;
    while (u >= 0 && !atomic_load(&proxy_stop)) {
        struct pollfd p[2] = { { .fd = j->c, .events = POLLIN }, { .fd = u, .events = POLLIN } }; if (poll(p, 2, 50) <= 0) continue; int done = 0;
        for (int i = 0; i < 2 && !done; i++) if (p[i].revents) { ssize_t n = recv(p[i].fd, b, 1 + vh_below(&r, 69000), 0); if (n <= 0) { done = 1; break; } if (i && left >= 0) { if (n >= left && !atomic_load(&finishing)) { n = left; done = 1; atomic_fetch_add(&pipe_cuts, 1); } left = left > n ? left - n : 0; } for (ssize_t k = 0; k < n;) { ssize_t z = send(i ? j->c : u, b + k, (size_t)(n - k), MSG_NOSIGNAL); if (z <= 0) { done = 1; break; } k += z; } }
        if (done) break;
    }
    if (u >= 0) hang_up(u, (int)vh_below(&r, 2)); close(j->c); free(b); free(j); atomic_fetch_sub(&pipes, 1); return NULL;
}
typedef struct { pthread_t th; int l; uint64_t seed; } proxy;
static void* proxying(void* a) { proxy* x = a; vh_rng r; vh_rng_seed(&r, x->seed); while (!atomic_load(&proxy_stop)) { struct pollfd p = { .fd = x->l, .events = POLLIN }; if (poll(&p, 1, 20) <= 0) continue; int s = accept(x->l, NULL, NULL); if (s < 0) continue; tube* j = malloc(sizeof *j); *j = (tube){ s, vh_next(&r), atomic_load(&finishing) || vh_chance(&r, 10) ? -1 : (long)vh_below(&r, vh_chance(&r, 60) ? 3000 : 60000) }; atomic_fetch_add(&pipes, 1); pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); if (pthread_create(&t, &at, pump, j)) exit(3); pthread_attr_destroy(&at); } return NULL; }
typedef struct { char* got; _Atomic(long) count, last; _Atomic(long) t0; _Atomic(int) connects; } pclient;
static char* p_event(void* u, const void* d, size_t n, int* err) {
    pclient* c = u; *err = 0; const char* data = d; if (n == 9 && !memcmp(data, "connected", 9)) { if (!atomic_load(&c->count)) atomic_store(&c->t0, atomic_fetch_add(&clk, 1)); atomic_fetch_add(&c->connects, 1); return NULL; }
    long k = -1; int o = 0; if (n < 3 || sscanf(data, "@%ld@%n", &k, &o) != 1 || !o || k < 0 || k >= atomic_load(&n_events) || k >= MAXE) { vh_viol("sse:invented", "the HTTP client delivered an event nobody sent: %.80s", data); return NULL; }
    event* e = &E[k]; if (e->wn != n || memcmp(e->want, data, n)) { size_t x = 0; while (x < n && x < e->wn && data[x] == e->want[x]) x++; vh_viol("sse:data", "the HTTP client delivered event %ld (%zu bytes) with %zu bytes, different from byte %zu", k, e->wn, n, x); }
    if (c->got[k]) vh_viol("sse:repeated", "the HTTP client delivered event %ld twice", k); if (e->sess >= 0) vh_viol("sse:session", "an event for session %d arrived at a client without session", e->sess);
    c->got[k] = 1; vh_distinct((uint64_t)(k + 1) * 77 ^ vh_seed); atomic_store(&c->last, k); atomic_fetch_add(&c->count, 1); return NULL;
}
static void p_error(void* u, int code) { (void)u; (void)code; }
static void m_pair(vh_rng* r) {
    open_server(r); uint16_t pp; proxy x = { .l = listen_any(&pp), .seed = vh_next(r) }; atomic_store(&proxy_stop, 0); atomic_store(&pipe_cuts, 0); pthread_create(&x.th, NULL, proxying, &x);
    int nc = 1 + (int)vh_below(r, 4), ns = 1 + (int)vh_below(r, 3); pclient cs[4]; mcp_transport_t* ts[4]; sender ss[3]; memset(cs, 0, sizeof cs); long per = vh_cases / ns; if (per * ns > 4000) per = 4000 / ns;
    for (int i = 0; i < nc; i++) { cs[i].got = calloc(MAXE, 1); atomic_store(&cs[i].t0, -1); mcp_http_client_config_t hc = { .host = "127.0.0.1", .port = pp, .timeout_ms = 20000 }; ts[i] = mcp_transport_http_client_create_with_config(&hc); if (!ts[i] || mcp_transport_start(ts[i], p_event, &cs[i], p_error)) { vh_viol("sse:client", "the HTTP client does not start"); return; } }
    vh_usleep((long)vh_below(r, 60000));
    for (int i = 0; i < ns; i++) { ss[i] = (sender){ .seed = vh_next(r), .n = per, .slow = 1 }; pthread_create(&ss[i].th, NULL, send_many, &ss[i]); } for (int i = 0; i < ns; i++) pthread_join(ss[i].th, NULL);
    atomic_store(&finishing, 1); for (int i = 0; i < nc; i++) for (int z = 0; z < 6000 && !atomic_load(&cs[i].connects); z++) vh_usleep(10000);
    long mark = send_one(r, -1, 1), last = mark; uint64_t t0 = vh_now_us(); long total = 0, due = 0, rec = 0; (void)last;
    for (int i = 0; i < nc; i++) { for (int z = 1; atomic_load(&cs[i].last) < mark && vh_viol_count() < 5; z++) { if (z % 100 == 0) last = send_one(r, -1, 1);   /* it may be away and have nothing to resume from */  if (vh_now_us() - t0 > 60000000ULL) { vh_viol("sse:lost", "an HTTP client did not get the last event within 60 s (%ld events before)", atomic_load(&cs[i].count)); break; } vh_usleep(2000); } }
    for (int i = 0; i < nc; i++) { mcp_transport_stop(ts[i]); mcp_transport_destroy(ts[i]); for (long k = 0; k <= mark && vh_viol_count() < 5; k++) { event* e = &E[k]; if (e->sess >= 0 || atomic_load(&cs[i].t0) < 0 || e->begin < atomic_load(&cs[i].t0)) continue; due++; if (!cs[i].got[k]) vh_viol("sse:lost", "event %ld was sent after the HTTP client had connected and never arrived (%ld events, %d connections)", k, atomic_load(&cs[i].count), atomic_load(&cs[i].connects)); } total += atomic_load(&cs[i].count); rec += atomic_load(&cs[i].connects) - 1; free(cs[i].got); }
    vh_evals(total); vh_count("events through the HTTP client", total); vh_count("events that had to arrive", due); vh_count("streams cut under the HTTP client", atomic_load(&pipe_cuts)); vh_count("reconnects of the HTTP client", rec); vh_sample("%d HTTP clients: %ld events, %ld had to arrive, %ld streams cut", nc, total, due, atomic_load(&pipe_cuts));
    atomic_store(&proxy_stop, 1); pthread_join(x.th, NULL); close(x.l); for (int i = 0; i < 600 && atomic_load(&pipes); i++) vh_usleep(50000); mcp_transport_stop(T); mcp_transport_destroy(T); clear_events();
}
/* waiting for a reconnection goes faster */
void __real_mcp_sleep_ms(unsigned); void __wrap_mcp_sleep_ms(unsigned ms) { __real_mcp_sleep_ms(ms >= 50 ? 1 : ms); }
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); lws_set_log_level(0, NULL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "over")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) m_over(&r); else if (!strcmp(vh_mode, "pair")) for (int i = 0; i < 4 && vh_viol_count() < 5; i++) m_pair(&r); else for (int i = 0; i < 4 && vh_viol_count() < 5; i++) m_server(&r);
    return vh_finish();
}
