// LINK: -Wl,--wrap=mcp_sleep_ms
/* The client over its HTTP transport, against a server written here.
   own    many threads on one client; answers at once, later, in pieces, chunked, until close, with errors
   cut    the same while single answers are cut short, never come, are no JSON or belong to somebody else: only those calls fail
   events event streams with every kind of line end and framing, cut anywhere and resumed
   life   transports started and stopped, with the event stream served, refused, silent or unreachable */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <dirent.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "mcp_transport.h"
#include "mcp_http_client_transport.h"
#include "mcp_client.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
/* waiting for a reconnection goes faster */
void __real_mcp_sleep_ms(unsigned); void __wrap_mcp_sleep_ms(unsigned ms) { __real_mcp_sleep_ms(ms >= 50 ? 1 : ms); }
enum { ANSWER, LATE, ERROR_, NEVER, TOOLATE, DROP, DROPMID, NOTJSON, FOREIGN };
enum { EV_HOLD, EV_REFUSE, EV_STREAM };
typedef struct { char *data, *type; long id; int lines; } event;       /* id < 0: none */
typedef struct world { int l; uint16_t port; pthread_t th; _Atomic(int) stop, live; int ev_mode; uint64_t seed; _Atomic(long) posts, streams, cuts; int chunk_ok;
    event* ev; long n_ev; int cutting; _Atomic(long) delivered; _Atomic(int) stream_no; long* seen_ids; char idp[160]; } world;
typedef struct { world* w; int s; uint64_t seed; } conn;
/* text with braces, brackets and escapes; no @ */
static size_t jtext(char* p, size_t n, uint64_t h) { size_t k = 0; while (k < n) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; unsigned c = 32 + (unsigned)(h >> 40) % 95; if (c == '"' || c == '\\') { p[k++] = '\\'; p[k++] = (char)c; } else p[k++] = (char)(c == '@' ? '.' : (h >> 50) % 9 == 0 ? "{}[]:,"[(h >> 30) % 6] : c); } p[k] = 0; return k; }
static char* answer_text(long k, uint64_t hash, size_t rl) { char* s = malloc(rl + 104); int i = sprintf(s, "\"@%ld@%llx@", k, (unsigned long long)hash); size_t m = jtext(s + i, rl, (uint64_t)k * 31 + hash); strcpy(s + i + m, "\""); return s; }
static int put(int s, const char* p, size_t n, vh_rng* r, int style) { size_t at = 0; while (at < n) { size_t k = n - at; if (style) k = 1 + vh_below(r, n > 4000 ? 6000 : 40); if (k > n - at) k = n - at; ssize_t g = send(s, p + at, k, MSG_NOSIGNAL); if (g <= 0) { if (g < 0 && errno == EINTR) continue; return -1; } at += (size_t)g; if (style && vh_chance(r, 8)) vh_usleep((long)vh_below(r, 300)); } return 0; }
typedef struct { char* p; size_t n, cap; } str;
static void add(str* b, const char* p, size_t n) { if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); } memcpy(b->p + b->n, p, n); b->n += n; b->p[b->n] = 0; }
static void chunked(str* o, const char* p, size_t n, vh_rng* r, int end) { size_t at = 0; while (at < n) { size_t k = 1 + vh_below(r, n > 1000 ? 5000 : 60); if (k > n - at) k = n - at; char h[64]; int m = sprintf(h, vh_chance(r, 50) ? "%zx%s\r\n" : "%zX%s\r\n", k, vh_chance(r, 10) ? ";x=y" : ""); add(o, h, (size_t)m); add(o, p + at, k); add(o, "\r\n", 2); at += k; } if (end) { const char* e = vh_chance(r, 80) ? "0\r\n\r\n" : "0\r\nX-T: 1\r\n\r\n"; add(o, e, strlen(e)); } }
static void pad_headers(str* o, vh_rng* r) { int n = vh_chance(r, 70) ? 0 : (int)vh_below(r, 20); for (int i = 0; i < n; i++) { char h[120]; int m = sprintf(h, "X-Pad-%d: ", i); size_t k = vh_below(r, 80); memset(h + m, 'p', k); strcpy(h + m + k, "\r\n"); add(o, h, strlen(h)); } }
/* ---- requests ---- */
static void serve_post(conn* c, char* b, size_t x, vh_rng* r) {
    world* w = c->w; atomic_fetch_add(&w->posts, 1);
    long k; int plan; size_t rl, pn; unsigned long long hash, id; char* at = strstr(b, "\"@"); char* idp = strstr(b, "\"id\":"); int used = 0;
    if (b[0] != '{' || b[x - 1] != '}' || memchr(b, 0, x) || !at || !idp || sscanf(idp, "\"id\":%llu", &id) != 1 || sscanf(at, "\"@%ld:%d:%zu:%zu:%llx@%n", &k, &plan, &rl, &pn, &hash, &used) != 5 || !used || strlen(at + used) < pn || vh_hash(at + used, pn, 9) != hash) { vh_viol("httpc:request", "the client posted %zu bytes that are none of its requests: \"%.60s\"", x, b); return; }
    char* t = answer_text(k, hash, rl); str body = {0}, o = {0}; char h[256]; int n;
    if (plan == ERROR_) n = sprintf(h, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%ld,\"message\":\"e%ld-%llx\"}}", id, -32000 - k % 50, k, hash), add(&body, h, (size_t)n);
    else if (plan == NOTJSON) { static const char* z[] = { "not json", "{", "{\"jsonrpc\":\"2.0\",\"id\":", "<html>{}</html>", "" }; const char* g = z[vh_below(r, 5)]; add(&body, g, strlen(g)); }
    else { n = sprintf(h, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":", plan == FOREIGN ? id + 1 + vh_below(r, 3) : id); add(&body, h, (size_t)n); add(&body, t, strlen(t)); add(&body, "}", 1); if (vh_chance(r, 5)) add(&body, "\r\n", 2); }
    if (plan == LATE) vh_usleep((long)vh_below(r, 20000));
    if (plan == TOOLATE) vh_usleep(2500000);
    int style = (int)vh_below(r, 3); const char* st = plan == NOTJSON && vh_chance(r, 50) ? "500 Oops" : vh_chance(r, 95) ? "200 OK" : "400 Bad Request"; n = sprintf(h, "HTTP/1.1 %s\r\n", st); add(&o, h, (size_t)n); pad_headers(&o, r);
    if (style == 0) { n = sprintf(h, "%s: %zu\r\n", vh_chance(r, 50) ? "Content-Length" : "content-length", body.n); add(&o, h, (size_t)n); } else if (style == 1) add(&o, "Transfer-Encoding: chunked\r\n", 28);
    const char* ct = "Content-Type: application/json\r\nConnection: close\r\n"; add(&o, ct, strlen(ct)); pad_headers(&o, r); add(&o, "\r\n", 2); size_t head = o.n; if (style == 1) chunked(&o, body.p ? body.p : "", body.n, r, 1); else add(&o, body.p ? body.p : "", body.n);
    size_t upto = o.n; int pieces = (int)vh_below(r, 2);
    if (plan == DROPMID) { if (style == 2) upto = head > 10 ? vh_below(r, head + 1) : 0; else upto = vh_below(r, o.n - 6); }       /* without a length a cut body is not recognisable, so the headers are cut */
    if (plan == DROP) upto = 0;
    if (plan == NEVER) { struct pollfd p = { .fd = c->s, .events = POLLIN }; char q[64]; uint64_t t0 = vh_now_us(); while (vh_now_us() - t0 < 40000000ULL && !atomic_load(&w->stop)) if (poll(&p, 1, 100) > 0 && recv(c->s, q, sizeof q, 0) <= 0) break; }
    else put(c->s, o.p, upto, r, pieces);
    if ((plan == DROP || plan == DROPMID) && vh_chance(r, 30)) { struct linger l = { 1, 0 }; setsockopt(c->s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    free(t); free(body.p); free(o.p);
}
/* ---- event streams ---- */
static void event_text(str* o, const event* e, vh_rng* r, int eol, const char* idp) {
    static const char* el[] = { "\n", "\r\n", "\r" }; 
    #define EOL() do { const char* z = el[eol < 3 ? eol : (int)vh_below(r, 2)]; add(o, z, strlen(z)); } while (0)
    if (vh_chance(r, 15)) { add(o, ": comment data: x", 17); EOL(); }
    if (vh_chance(r, 5)) { add(o, "retry: 10", 9); EOL(); } if (vh_chance(r, 5)) { add(o, "unknown: z", 10); EOL(); } if (vh_chance(r, 5)) { add(o, "database: z", 11); EOL(); }
    int idfirst = vh_chance(r, 50); char h[300];
    #define ID() do { if (e->id >= 0) { snprintf(h, sizeof h, "id:%s%s%ld", vh_chance(r, 50) ? " " : "", idp, e->id); add(o, h, strlen(h)); EOL(); } } while (0)
    if (idfirst) ID();
    if (e->type) { sprintf(h, "event:%s%s", vh_chance(r, 50) ? " " : "", e->type); add(o, h, strlen(h)); EOL(); }
    const char* p = e->data; for (;;) { const char* q = strchr(p, '\n'); size_t n = q ? (size_t)(q - p) : strlen(p); if (n == 0 && vh_chance(r, 30)) add(o, "data", 4); else { add(o, "data:", 5); if (n == 0 ? vh_chance(r, 50) : *p == ' ' || vh_chance(r, 50)) add(o, " ", 1); add(o, p, n); } EOL(); if (!q) break; p = q + 1; }
    if (!idfirst) ID();
    EOL();
}
static void serve_events(conn* c, const char* req, vh_rng* r) {
    world* w = c->w; long from = 0; int no = atomic_fetch_add(&w->stream_no, 1);
    if (w->ev_mode == EV_REFUSE) { const char* z = vh_chance(r, 50) ? "HTTP/1.1 404 Not Found\r\nContent-Length: 18\r\n\r\ndata: nothing\n\nxx" : "HTTP/1.1 503 No\r\nConnection: close\r\n\r\ndata: nothing\n\n"; put(c->s, z, strlen(z), r, 0); return; }
    const char* li = strstr(req, "\r\nLast-Event-ID:"); long last = -1; if (li) { const char* v = li + 16; while (*v == ' ') v++; size_t k = strlen(w->idp); if (strncmp(v, w->idp, k)) { vh_viol("httpc:resume", "the client resumes after \"%.*s\", which was never sent", (int)strcspn(v, "\r"), v); return; } last = strtol(v + k, NULL, 10); }
    if (w->ev_mode == EV_STREAM) {
        /* the client names the last event it was given completely: everything it handed out, or the one just being handed out */
        if (last >= 0) { for (from = 0; from < w->n_ev && w->ev[from].id != last; from++) {} if (from == w->n_ev) { vh_viol("httpc:resume", "the client resumes after event %ld, which was never sent", last); return; } from++; }
        else if (no > 0 && atomic_load(&w->delivered) > 0 && w->ev[0].id >= 0) { vh_viol("httpc:resume", "the client reconnected after %ld events without naming the last one", atomic_load(&w->delivered)); return; }
        if (from > 0 && from != atomic_load(&w->delivered)) { vh_viol("httpc:resume", "the client resumes after %ld events but was given %ld", from, atomic_load(&w->delivered)); return; }
        atomic_fetch_add(&w->streams, 1);
    }
    str o = {0}; const char* h = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n"; add(&o, h, strlen(h)); pad_headers(&o, r); int ch = vh_chance(r, 50); if (ch) { h = vh_chance(r, 50) ? "Transfer-Encoding: chunked\r\n" : "transfer-encoding:chunked\r\n"; add(&o, h, strlen(h)); } add(&o, "Cache-Control: no-cache\r\n\r\n", 27);
    str body = {0}; int eol = (int)vh_below(r, 4); if (w->ev_mode == EV_STREAM) for (long i = from; i < w->n_ev; i++) event_text(&body, &w->ev[i], r, eol, w->idp);
    if (body.n && eol == 2) add(&body, ":\n", 2);
    if (ch && body.n) chunked(&o, body.p, body.n, r, 0); else if (body.n) add(&o, body.p, body.n);
    size_t upto = o.n; int cutit = w->ev_mode == EV_STREAM && w->cutting && no < w->cutting; if (cutit) { upto = vh_below(r, o.n + 1); atomic_fetch_add(&w->cuts, 1); }
    int rc = put(c->s, o.p, upto, r, (int)vh_below(r, 2)); free(o.p); free(body.p);
    if (rc == 0 && !cutit) { struct pollfd p = { .fd = c->s, .events = POLLIN }; char q[64]; while (!atomic_load(&w->stop)) if (poll(&p, 1, 50) > 0 && recv(c->s, q, sizeof q, 0) <= 0) break; }
}
static void* serve(void* a) {
    conn* c = a; vh_rng r; vh_rng_seed(&r, c->seed); str b = {0}; char q[8192]; char* e = NULL;
    while (!e) { ssize_t g = recv(c->s, q, sizeof q, 0); if (g <= 0) break; add(&b, q, (size_t)g); e = strstr(b.p, "\r\n\r\n"); if (b.n > 100000) break; }
    if (e && !strncmp(b.p, "GET /events ", 12)) serve_events(c, b.p, &r);
    else if (e && !strncmp(b.p, "POST /call_tool ", 16)) {
        size_t head = (size_t)(e - b.p) + 4, len = 0; char* cl = strcasestr(b.p, "\r\nContent-Length:"); if (cl && cl < e) len = strtoul(cl + 17, NULL, 10); int bad = 0;
        while (b.n < head + len) { ssize_t g = recv(c->s, q, sizeof q, 0); if (g <= 0) { bad = 1; break; } add(&b, q, (size_t)g); }
        if (bad || b.n > head + len || !len) vh_viol("httpc:request", "a post announces %zu bytes and has %zu", len, b.n - head); else serve_post(c, b.p + head, len, &r);
    } else if (b.n) vh_viol("httpc:request", "an unexpected request: \"%.40s\"", b.p);
    shutdown(c->s, SHUT_WR); { struct timeval tv = { 2, 0 }; setsockopt(c->s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); while (recv(c->s, q, sizeof q, 0) > 0) {} }
    close(c->s); free(b.p); atomic_fetch_sub(&c->w->live, 1); free(c); return NULL;
}
static void* acceptor(void* a) { world* w = a; vh_rng r; vh_rng_seed(&r, w->seed); while (!atomic_load(&w->stop)) { struct pollfd p = { .fd = w->l, .events = POLLIN }; if (poll(&p, 1, 20) <= 0) continue; int s = accept(w->l, NULL, NULL); if (s < 0) continue; int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); conn* c = calloc(1, sizeof *c); c->w = w; c->s = s; c->seed = vh_next(&r); atomic_fetch_add(&w->live, 1); pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); if (pthread_create(&t, &at, serve, c)) { fprintf(stdout, "no thread\n"); exit(3); } pthread_attr_destroy(&at); } return NULL; }
static void server_open(world* w, vh_rng* r) { memset(w, 0, sizeof *w); w->seed = vh_next(r); w->l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t n = sizeof a; if (bind(w->l, (void*)&a, sizeof a) || listen(w->l, 256) || getsockname(w->l, (void*)&a, &n)) { fprintf(stdout, "no port\n"); exit(3); } w->port = ntohs(a.sin_port); }
static void server_run(world* w) { pthread_create(&w->th, NULL, acceptor, w); }
static void server_close(world* w) { atomic_store(&w->stop, 1); pthread_join(w->th, NULL); close(w->l); for (int i = 0; i < 600 && atomic_load(&w->live); i++) vh_usleep(50000); }
/* ---- callers ---- */
static _Atomic(long) next_k = 1;
typedef struct { world* w; mcp_client_t* c; uint64_t seed; long n, ok, failed; int cut; uint32_t timeout; } caller;
static void* calling(void* a) {
    caller* j = a; mcp_arena_init_current_thread(65536); vh_rng r; vh_rng_seed(&r, j->seed);
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        int x = (int)vh_below(&r, 100), plan = x < 60 ? ANSWER : x < 80 ? LATE : ERROR_; if (j->cut && vh_chance(&r, 30)) { static const int p[] = { DROP, DROPMID, DROPMID, NOTJSON, FOREIGN }; plan = p[vh_below(&r, 5)]; if (vh_chance(&r, 3)) plan = vh_chance(&r, 50) ? NEVER : TOOLATE; }
        long k = atomic_fetch_add(&next_k, 1); x = (int)vh_below(&r, 100); size_t n = x < 70 ? vh_below(&r, 300) : x < 92 ? vh_below(&r, 9000) : vh_below(&r, 250000), rl = vh_chance(&r, 80) ? vh_below(&r, 500) : vh_chance(&r, 70) ? vh_below(&r, 12000) : vh_below(&r, 200000);
        char* p = malloc(n + 204); char* pad = malloc(n + 4); n = jtext(pad, n, vh_next(&r)); uint64_t hash = vh_hash(pad, n, 9); sprintf(p, "{\"a\":\"@%ld:%d:%zu:%zu:%llx@%s\"}", k, plan, rl, n, (unsigned long long)hash, pad); free(pad);
        char *res = NULL, *msg = NULL; mcp_error_code_t ec = 0; uint64_t t0 = vh_now_us(); int rc = mcp_client_send_request(j->c, "m", p, &res, &ec, &msg); uint64_t took = vh_now_us() - t0; free(p);
        char* want = answer_text(k, hash, rl); char em[80]; sprintf(em, "e%ld-%llx", k, (unsigned long long)hash); int good = plan == ANSWER || plan == LATE || (plan == TOOLATE && rc == 0 && took >= (uint64_t)j->timeout * 1000);
        if (good ? rc == 0 && res && !strcmp(res, want) : plan == ERROR_ ? ec == -32000 - k % 50 && msg && !strcmp(msg, em) && !res : 0) j->ok++;
        else if (good || plan == ERROR_) vh_viol("httpc:answer", "call %ld (plan %d) returned %d, error %d \"%.60s\", result \"%.60s\"; its answer is \"%.60s\" (%zu bytes)", k, plan, rc, (int)ec, msg ? msg : "", res ? res : "nothing", plan == ERROR_ ? em : want, strlen(want));
        else if (rc == 0 || res) vh_viol("httpc:invented", "call %ld without a whole answer of its own (plan %d) returned %d with \"%.60s\"", k, plan, rc, res ? res : "nothing");
        else j->failed++;
        if ((plan == NEVER || plan == TOOLATE) && (took < (uint64_t)j->timeout * 900 || took > (uint64_t)j->timeout * 2000 + 20000000)) vh_viol("httpc:timeout", "a call that is not answered in %u ms failed after %llu us", j->timeout, (unsigned long long)took);
        if (plan != NEVER && plan != TOOLATE && took > 60000000) vh_viol("httpc:late", "a call (plan %d) took %llu ms", plan, (unsigned long long)took / 1000);
        free(want); free(res); free(msg);
    }
    mcp_arena_destroy_current_thread(); return NULL;
}
static mcp_transport_t* transport_open(uint16_t port, uint32_t timeout) { mcp_http_client_config_t hc = { .host = "127.0.0.1", .port = port, .timeout_ms = timeout }; return mcp_transport_http_client_create_with_config(&hc); }
static void talk(vh_rng* r, int cut) {
    world w; server_open(&w, r); w.ev_mode = vh_chance(r, 50) ? EV_HOLD : EV_REFUSE; server_run(&w); uint32_t timeout = cut ? 1500 : 60000; mcp_client_config_t cc = { .request_timeout_ms = timeout };
    mcp_client_t* c = mcp_client_create(&cc, transport_open(w.port, timeout)); if (!c) { vh_viol("httpc:create", "no client"); return; }
    int n = 1 + (int)vh_below(r, 10); caller js[12]; pthread_t th[12]; long each = vh_cases / 4 / n + 1, ok = 0, failed = 0;
    for (int i = 0; i < n; i++) { js[i] = (caller){ .w = &w, .c = c, .seed = vh_next(r), .n = each, .cut = cut, .timeout = timeout }; pthread_create(&th[i], NULL, calling, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); ok += js[i].ok; failed += js[i].failed; }
    vh_evals(ok + failed); vh_count("own answers over HTTP", ok); vh_count("calls whose answer was spoilt", failed); for (long i = 0; i < ok + failed; i++) vh_distinct(w.seed + (uint64_t)i); vh_sample("%d threads: %ld own answers over HTTP, %ld calls with a spoilt answer failed", n, ok, failed);
    uint64_t t0 = vh_now_us(); mcp_client_destroy(c); t0 = vh_now_us() - t0; if (t0 > 10000000ULL) vh_viol("httpc:destroy-slow", "destroying the client took %llu ms", (unsigned long long)t0 / 1000);
    server_close(&w);
}
/* ---- events ---- */
static char* on_message(void* u, const void* d, size_t n, int* err) {
    world* w = u; *err = 0; long i = atomic_load(&w->delivered);
    if (w->ev_mode != EV_STREAM || i >= w->n_ev) { vh_viol("httpc:event", "an event too many was delivered after %ld: \"%.*s\"", i, (int)(n < 60 ? n : 60), (const char*)d); return NULL; }
    event* e = &w->ev[i]; if (n != strlen(e->data) || memcmp(d, e->data, n)) { vh_viol("httpc:event", "event %ld was delivered with %zu bytes \"%.*s\", sent with %zu \"%.60s\"", i, n, (int)(n < 60 ? n : 60), (const char*)d, strlen(e->data), e->data); }
    atomic_fetch_add(&w->delivered, 1); return NULL;
}
static void on_error(void* u, int code) { (void)u; (void)code; }
static void make_events(world* w, vh_rng* r, long n, int ids) {
    w->ev = calloc((size_t)n, sizeof *w->ev); w->n_ev = n; static const char* ty[] = { NULL, NULL, "message", "update", "x y:z" };
    long big = n < 31 && !w->cutting && vh_chance(r, 25) ? (long)vh_below(r, (uint64_t)n) : -1; int pl = vh_chance(r, 40) ? (int)vh_below(r, 150) : 0; for (int k = 0; k < pl; k++) w->idp[k] = "abcdef-_:.0"[vh_below(r, 11)]; if (pl) w->idp[pl - 1] = '/'; w->idp[pl] = 0;
    for (long i = 0; i < n; i++) { event* e = &w->ev[i]; e->id = ids ? i * 3 + 1 : -1; e->type = (char*)ty[vh_below(r, 5)]; size_t len = vh_chance(r, 80) ? vh_below(r, 100) : vh_chance(r, 80) ? vh_below(r, 9000) : vh_below(r, 90000); if (i == big) len = 1000000 + vh_below(r, 1500000); char* d = malloc(len + 2); for (size_t k = 0; k < len; k++) { unsigned x = (unsigned)vh_below(r, 60); d[k] = x == 0 && (i != big || vh_chance(r, 1)) ? '\n' : x == 1 ? ':' : x == 2 ? ' ' : x == 3 ? '\t' : x == 4 ? (char)0xc3 : (char)('a' + x % 26); if (k && d[k - 1] == '\n' && vh_chance(r, 20)) d[k] = ' '; else if (k && d[k - 1] == ' ' && vh_chance(r, 20)) d[k] = ' '; } d[len] = 0; if (len > 3 && vh_chance(r, 10)) d[0] = d[1] = ' '; if (len == 0) strcpy(d, "e"); e->data = d; }
}
static void events(vh_rng* r) {
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        world w; server_open(&w, r); w.ev_mode = EV_STREAM; w.cutting = vh_chance(r, 60) ? 1 + (int)vh_below(r, 6) : 0; make_events(&w, r, 1 + (long)vh_below(r, vh_chance(r, 70) ? 30 : 300), w.cutting || vh_chance(r, 50)); server_run(&w);
        mcp_transport_t* t = transport_open(w.port, 5000); uint64_t t0 = vh_now_us(); mcp_transport_start(t, on_message, &w, on_error); long last = -1; uint64_t moved = t0;
        while (vh_viol_count() < 5) { long d = atomic_load(&w.delivered); if (d == w.n_ev) break; if (d != last || atomic_load(&w.stream_no) <= w.cutting) { if (d != last) moved = vh_now_us(); last = d; } if (vh_now_us() - moved > 60000000ULL) { vh_viol("httpc:event-lost", "%ld of %ld events were delivered, then nothing for 60 s (%d streams)", d, w.n_ev, atomic_load(&w.stream_no)); break; } vh_usleep(500); }
        if (vh_chance(r, 30)) vh_usleep((long)vh_below(r, 20000));
        vh_evals(w.n_ev); vh_count("events delivered to the client", atomic_load(&w.delivered)); vh_count("event streams cut", atomic_load(&w.cuts)); vh_count("event streams resumed", atomic_load(&w.streams) - 1); for (long k = 0; k < w.n_ev; k++) vh_distinct(w.seed + (uint64_t)k); if (i < 6) vh_sample("%ld events over %ld streams of which %ld were cut", w.n_ev, atomic_load(&w.streams), atomic_load(&w.cuts));
        t0 = vh_now_us(); mcp_transport_stop(t); mcp_transport_destroy(t); t0 = vh_now_us() - t0; if (t0 > 10000000ULL) vh_viol("httpc:stop-slow", "stopping took %llu ms", (unsigned long long)t0 / 1000);
        server_close(&w); for (long k = 0; k < w.n_ev; k++) free(w.ev[k].data); free(w.ev);
    }
}
static int count_dir(const char* p) { int n = 0; DIR* d = opendir(p); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static void life(vh_rng* r) {
    int fd0 = -1, th0 = -1;
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        world w; server_open(&w, r); int kind = (int)vh_below(r, 4); w.ev_mode = kind == 0 ? EV_HOLD : kind == 1 ? EV_REFUSE : EV_STREAM; make_events(&w, r, 20, 1); w.cutting = (int)vh_below(r, 3); server_run(&w); uint16_t port = w.port; if (kind == 3) server_close(&w);
        mcp_transport_t* t = transport_open(port, 2000); int starts = 1 + (int)vh_below(r, 3);
        for (int k = 0; k < starts; k++) { if (kind == 2) { atomic_store(&w.stream_no, 0); } if (mcp_transport_start(t, on_message, &w, on_error)) { vh_viol("httpc:start", "starting failed"); break; } if (vh_chance(r, 70)) vh_usleep((long)vh_below(r, 30000)); uint64_t t0 = vh_now_us(); if (k < starts - 1 || vh_chance(r, 50)) mcp_transport_stop(t); t0 = vh_now_us() - t0; if (t0 > 10000000ULL) vh_viol("httpc:stop-slow", "stopping (kind %d) took %llu ms", kind, (unsigned long long)t0 / 1000); }
        uint64_t t0 = vh_now_us(); mcp_transport_destroy(t); t0 = vh_now_us() - t0; if (t0 > 10000000ULL) vh_viol("httpc:stop-slow", "destroying (kind %d) took %llu ms", kind, (unsigned long long)t0 / 1000);
        if (kind != 3) server_close(&w); for (long k = 0; k < w.n_ev; k++) free(w.ev[k].data); free(w.ev); vh_evals(1); vh_distinct(w.seed); vh_count("client lives over HTTP", 1);
        if (i == 0) { fd0 = count_dir("/proc/self/fd"); th0 = count_dir("/proc/self/task"); }
    }
    int fd = 0, th = 0; for (int i = 0; i < 50; i++) { fd = count_dir("/proc/self/fd"); th = count_dir("/proc/self/task"); if (fd <= fd0 && th <= th0) break; vh_usleep(100000); }
    if (fd > fd0) vh_viol("httpc:fd-leak", "%d descriptors before %ld client lives, %d after", fd0, vh_cases, fd);
    if (th > th0) vh_viol("httpc:thread-leak", "%d threads before %ld client lives, %d after", th0, vh_cases, th);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); vh_high_fds(&r); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "events")) events(&r); else if (!strcmp(vh_mode, "life")) life(&r); else for (int i = 0; i < 4 && vh_viol_count() < 5; i++) talk(&r, !strcmp(vh_mode, "cut"));
    return vh_finish();
}
