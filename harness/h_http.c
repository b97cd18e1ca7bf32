// USE: vsrv
/* The two HTTP servers on the loopback interface, driven by raw socket clients.
   The transport's callback computes its answer from what it is handed, so a client can recompute every answer.
   Mode call: plain HTTP server; stcall: streamable HTTP server; server: an MCP server behind either of them;
   get: tool calls by GET, name and arguments in the query; origin: the streamable server with a list of allowed origins; files: either of them with a document root, asked for files inside and outside of it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <stdatomic.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "vh.h"
#include "vsrv.h"
#include "mcp_transport.h"
#include "mcp_http_transport.h"
#include "mcp_sthttp_transport.h"
#include "mcp_log.h"
#include <libwebsockets.h>
#define MAXREQ (1 << 18)

typedef struct { mcp_transport_t* t; uint16_t port; int st; const char* path; _Atomic(unsigned char)* seen; _Atomic(long) calls, odd; _Atomic(int) closed; } world;
static _Atomic(long) next_id;

/* ---- requests and the answers they must get ---- */
enum { ANSWER, ANSWER_ERR, REFUSE, NOTE };
static size_t text(char* p, size_t n, uint64_t h) {   /* printable, some UTF-8 */
    size_t k = 0; while (k < n) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; unsigned c = (unsigned)(h >> 33); if (c % 17 == 0 && k + 2 <= n) { p[k++] = (char)0xc3; p[k++] = (char)(0x80 + (c >> 8) % 64); } else { c = 32 + (c >> 8) % 95; p[k++] = (char)(c == '"' || c == '\\' ? '.' : c); } } p[k] = 0; return k;
}
static char* mkreq(vh_rng* r, long id, int what, size_t n, size_t rlen, size_t* out) {
    char* s = malloc(n + 300); char* pad = malloc(n + 1); text(pad, n, vh_next(r));
    int k = sprintf(s, "{\"jsonrpc\":\"2.0\",%s\"method\":\"m\",\"params\":[\"@%ld:%d:%zu:%lx@\",\"", what == NOTE ? "" : "\"id\":7,", id, what, rlen, vh_hash(pad, n, 5));
    memcpy(s + k, pad, n); strcpy(s + k + n, "\"]}"); *out = (size_t)k + n + 3; free(pad); return s;
}
static char* mkans(long id, size_t rlen, uint64_t hash) { char* s = malloc(rlen + 200); int k = sprintf(s, "{\"jsonrpc\":\"2.0\",\"id\":7,\"result\":\"@%ld@%lx@", id, hash); k += (int)text(s + k, rlen, (uint64_t)id * 77 + hash); strcpy(s + k, "\"}"); return s; }
static char* serve(void* u, const void* data, size_t size, int* err) {
    world* w = u; *err = 0; atomic_fetch_add(&w->calls, 1); const char* p = data;
    if (atomic_load(&w->closed)) vh_viol("http:after-stop", "message callback entered after the transport had been stopped");
    long id; int what; size_t rlen; unsigned long hash; int k = 0; const char* at = memchr(p, '@', size < 200 ? size : 200); char head[120]; 
    if (!at) { atomic_fetch_add(&w->odd, 1); *err = -32600; return NULL; }
    size_t hn = size - (size_t)(at - p); if (hn > 119) hn = 119; memcpy(head, at, hn); head[hn] = 0;
    if (sscanf(head, "@%ld:%d:%zu:%lx@\",\"%n", &id, &what, &rlen, &hash, &k) != 4 || !k || id < 0 || id >= MAXREQ) { atomic_fetch_add(&w->odd, 1); *err = -32600; return NULL; }
    const char* pad = at + k; size_t pn = size - (size_t)(pad - p);
    if (pn < 3 || memcmp(pad + pn - 3, "\"]}", 3) || vh_hash(pad, pn - 3, 5) != hash) vh_viol("http:request-bytes", "request %ld: the %zu bytes handed to the callback are not those posted", id, size);
    if (p[size]) vh_viol("http:request-end", "request %ld: the text handed to the callback does not end after its %zu bytes", id, size);
    if (atomic_fetch_add(&w->seen[id], 1)) vh_viol("http:request-twice", "request %ld handed to the callback again", id);
    if (what == REFUSE) { *err = id % 2 ? -32602 : -32603; return NULL; }
    if (what == NOTE) return NULL;
    if (what == ANSWER_ERR) *err = -32601;
    return mkans(id, rlen, hash);
}
static uint16_t free_port(void) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a; if (bind(s, (void*)&a, sizeof a) || getsockname(s, (void*)&a, &l)) { close(s); return 0; } close(s); return ntohs(a.sin_port); }
static const char* doc_root;
static mcp_transport_t* make(vh_rng* r, int st, uint16_t port, const char** path) {
    if (!st) { mcp_http_config_t c; memset(&c, 0, sizeof c); c.host = "127.0.0.1"; c.port = port; c.enable_cors = vh_chance(r, 50); c.timeout_ms = 30000; c.doc_root = doc_root; *path = "/call_tool"; return mcp_transport_http_create(&c); }
    mcp_sthttp_config_t c = MCP_STHTTP_CONFIG_DEFAULT; c.port = port; c.doc_root = doc_root; c.enable_cors = vh_chance(r, 50); c.enable_sessions = vh_chance(r, 70); c.enable_legacy_endpoints = vh_chance(r, 50); if (vh_chance(r, 30)) c.mcp_endpoint = "/some/where"; *path = c.enable_legacy_endpoints && vh_chance(r, 40) ? "/call_tool" : c.mcp_endpoint; return mcp_transport_sthttp_create(&c);
}
static world* open_world(vh_rng* r, int st) {
    world* w = calloc(1, sizeof *w); w->seen = calloc(MAXREQ, 1); w->st = st;
    for (int i = 0; i < 20; i++) { w->port = free_port(); w->t = make(r, st, w->port, &w->path); if (!w->t) break; if (mcp_transport_start(w->t, serve, w, NULL) == 0) return w; mcp_transport_destroy(w->t); }
    vh_viol("http:start", "transport did not start on 20 free ports"); exit(vh_finish());
}
static void close_world(world* w, vh_rng* r) {
    if (vh_chance(r, 50)) { mcp_transport_stop(w->t); atomic_store(&w->closed, 1); vh_usleep((long)vh_below(r, 5000)); }
    mcp_transport_destroy(w->t); free((void*)w->seen); free(w);
}
/* ---- an HTTP client ---- */
typedef struct { int s; char* in; size_t n, cap; int used; } conn;
static int dial(uint16_t port) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; if (connect(s, (void*)&a, sizeof a)) { close(s); return -1; } int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return s; }
static void hang_up(conn* c, int how) { if (c->s < 0) return; if (how == 1) { struct linger l = { 1, 0 }; setsockopt(c->s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } else if (how == 2) shutdown(c->s, SHUT_WR); close(c->s); free(c->in); memset(c, 0, sizeof *c); c->s = -1; }
static int put(vh_rng* r, int s, const char* p, size_t n, int style) {
    size_t at = 0; int naps = 0;
    if (style == 4) { size_t piece = n >> (vh_chance(r, 60) ? 1 : 1 + vh_below(r, 3)); if (!piece) piece = n; while (at < n) { size_t k = n - at < piece ? n - at : piece; ssize_t g = send(s, p + at, k, MSG_NOSIGNAL); if (g < 0) { if (errno == EINTR) continue; return -1; } at += (size_t)g; if (at < n) vh_usleep(4000); } return 0; }     /* equal pieces, apart */
    while (at < n) { size_t k = n - at; if (style == 0) k = 1 + vh_below(r, n > 4000 ? 3000 : 20); else if (style == 1) k = 1 + vh_below(r, 70000); if (k > n - at) k = n - at; ssize_t g = send(s, p + at, k, MSG_NOSIGNAL); if (g < 0) { if (errno == EINTR) continue; return -1; } at += (size_t)g; if (style < 2 && at < n && naps < 40 && vh_chance(r, 30)) { naps++; vh_usleep((long)vh_below(r, 3000)); } }
    return 0;
}
/* 1: a whole response; 0: closed before any byte of it; -1: ended in the middle or malformed; -2: nothing more for 30 s */
static int fill_in(conn* c) { struct pollfd p = { .fd = c->s, .events = POLLIN }; int k = poll(&p, 1, 30000); if (k == 0) return -2; if (c->cap - c->n < 70000) c->in = realloc(c->in, c->cap = c->cap * 2 + 140000); ssize_t g = recv(c->s, c->in + c->n, 65536, 0); if (g <= 0) return 0; c->n += (size_t)g; return 1; }
static char* header(char* h, size_t n, const char* name) { size_t k = strlen(name); for (char* p = h; p < h + n;) { char* e = memmem(p, (size_t)(h + n - p), "\r\n", 2); if (!e) break; if ((size_t)(e - p) > k && !strncasecmp(p, name, k) && p[k] == ':') { p += k + 1; while (*p == ' ') p++; return p; } p = e + 2; } return NULL; }
static int get_response(conn* c, int* status, char** body, size_t* bn, int* ends, int head_only) {
    size_t hn = 0; char* e; *body = calloc(1, 1); *bn = 0; *ends = 0;
    for (;;) { e = c->n ? memmem(c->in, c->n, "\r\n\r\n", 4) : NULL; if (e) break; if (c->n > 65536) return -1; int k = fill_in(c); if (k == -2) return -2; if (k == 0) return c->n ? -1 : 0; }
    hn = (size_t)(e - c->in) + 4;
    if (memcmp(c->in, "HTTP/1.", 7) || sscanf(c->in + 8, " %d", status) != 1) return -1;
    char* v = header(c->in, hn, "Content-Length"); char* cn = header(c->in, hn, "Connection"); if (cn && !strncasecmp(cn, "close", 5)) *ends = 1;
    if (head_only) { memmove(c->in, c->in + hn, c->n - hn); c->n -= hn; return 1; }
    if (header(c->in, hn, "Transfer-Encoding")) return -1;
    if (v) { size_t want = strtoul(v, NULL, 10); while (c->n - hn < want) { int k = fill_in(c); if (k == -2) return -2; if (k == 0) return -1; } *body = realloc(*body, want + 1); memcpy(*body, c->in + hn, want); (*body)[want] = 0; *bn = want; memmove(c->in, c->in + hn + want, c->n - hn - want); c->n -= hn + want; return 1; }
    if (*status == 204 || *status == 304) { memmove(c->in, c->in + hn, c->n - hn); c->n -= hn; return 1; }
    for (;;) { int k = fill_in(c); if (k == -2) return -2; if (k == 0) break; }      /* ends with the connection */
    *bn = c->n - hn; *body = realloc(*body, *bn + 1); memcpy(*body, c->in + hn, *bn); (*body)[*bn] = 0; c->n = 0; *ends = 1; return 1;
}
static size_t pick(vh_rng* r) { int k = (int)vh_below(r, 100); return k < 50 ? vh_below(r, 400) : k < 70 ? 900 + vh_below(r, 400) : k < 80 ? 3900 + vh_below(r, 500) : k < 95 ? vh_below(r, 40000) : vh_below(r, 700000); }
typedef struct { world* w; vs_world* vw; uint16_t port; const char* path; uint64_t seed; long n; int attack; long done, kept, notes; } job;
static void one_post(vh_rng* r, conn* c, const char* path, const char* body, size_t n, int last) {
    char h[600]; int k = sprintf(h, "POST %s HTTP/1.%d\r\n%s: 127.0.0.1\r\nContent-Type: application/json\r\n%s%s%s%s: %zu\r\n\r\n", path, 1, vh_chance(r, 50) ? "Host" : "host", vh_chance(r, 30) ? "Accept: application/json, text/event-stream\r\n" : "", vh_chance(r, 20) ? "User-Agent: verif/1 (x; y)\r\n" : "", last ? "Connection: close\r\n" : vh_chance(r, 50) ? "Connection: keep-alive\r\n" : "", vh_chance(r, 50) ? "Content-Length" : "content-length", n);
    int style = (int)vh_below(r, 4); if (n < 20000 && vh_chance(r, 25)) { put(r, c->s, h, (size_t)k, 2); vh_usleep(3000); put(r, c->s, body, n, 4); return; }
    if (vh_chance(r, 40)) { char* all = malloc((size_t)k + n); memcpy(all, h, (size_t)k); memcpy(all + k, body, n); put(r, c->s, all, (size_t)k + n, style); free(all); }
    else { put(r, c->s, h, (size_t)k, style); if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 4000)); put(r, c->s, body, n, style); }
}
static void exchange(job* j, vh_rng* r, conn* c) {
    world* w = j->w;
    for (int attempt = 0; attempt < 4; attempt++) {
        long id = atomic_fetch_add(&next_id, 1); if (id >= MAXREQ) return;
        int x = (int)vh_below(r, 100), what = x < 80 ? ANSWER : x < 88 ? ANSWER_ERR : x < 94 ? REFUSE : NOTE; size_t n = pick(r), rl = pick(r), qn; char* q = mkreq(r, id, what, n, rl, &qn);
        if (qn < 16000 && vh_chance(r, 25)) { size_t to = 1024; while (to < qn) to *= 2; n += to - qn; free(q); q = mkreq(r, id, what, n, rl, &qn); }     /* a round length */
        unsigned long hash = 0; sscanf(strchr(q, '@'), "@%*d:%*d:%*u:%lx@", &hash);
        if (c->s < 0) { c->s = dial(j->port); c->used = 0; if (c->s < 0) { vh_viol("http:connect", "connection refused"); free(q); return; } }
        int last = vh_chance(r, 20); one_post(r, c, j->path, q, qn, last); free(q);
        int status = 0, ends; char* b; size_t bn; int k = get_response(c, &status, &b, &bn, &ends, 0);
        if (k == 0 && c->used && !atomic_load(&w->seen[id])) { hang_up(c, 0); free(b); continue; }       /* an idle connection had been closed meanwhile */
        if (k != 1) { vh_viol(k == -2 ? "http:no-answer" : "http:connection-lost", "request %ld (%zu bytes, exchange %d on its connection, asks for %zu): %s", id, qn, c->used + 1, rl, k == -2 ? "no complete response after 30 s" : k == 0 ? "connection closed without a response" : "response ends in the middle or is malformed"); hang_up(c, 0); free(b); return; }
        c->used++; if (c->used > 1) j->kept++;
        int seen = atomic_load(&w->seen[id]);
        if (seen != 1) vh_viol("http:handed-over", "request %ld got a response (status %d) but reached the callback %d times", id, status, seen);
        if (what == ANSWER || what == ANSWER_ERR) {
            char* want = mkans(id, rl, hash);
            if (status != 200) vh_viol("http:status", "request %ld: answered request has status %d (%s)", id, status, what == ANSWER ? "result" : "JSON-RPC error");
            else if (bn != strlen(want) || memcmp(b, want, bn)) vh_viol("http:answer", "request %ld of %zu bytes on exchange %d of its connection: response of %zu bytes is not its answer of %zu: \"%.60s\"", id, qn, c->used, bn, strlen(want), b);
            free(want);
        } else if (what == REFUSE) { if (status < 400) vh_viol("http:status", "request %ld: refused request has status %d", id, status); }
        else { j->notes++; if (status >= 300 || bn) vh_viol("http:note", "notification %ld: status %d with %zu bytes: \"%.60s\"", id, status, bn, b); }
        free(b); j->done++;
        if (vh_distinct(vh_hash(&n, sizeof n, rl * 4 + (size_t)what)) && j->done % 50 == 1) vh_sample("POST of %zu bytes, exchange %d on its connection, status %d with %zu bytes: own answer", qn, c->used, status, bn);
        if (ends || last || vh_chance(r, 15)) { if (ends && !vh_chance(r, 50)) { char y; if (c->n || recv(c->s, &y, 1, MSG_DONTWAIT) > 0) vh_viol("http:extra", "request %ld: bytes after the response", id); } hang_up(c, (int)vh_below(r, 3)); }
        else if (c->n) { vh_viol("http:extra", "request %ld: %zu bytes after the response", id, c->n); hang_up(c, 0); }
        return;
    }
}
static void vs_exchange(job* j, vh_rng* r, conn* c) {
    vs_msg m; do { memset(&m, 0, sizeof m); vs_gen(j->vw, r, &m, 1); if (m.text.n > 0 && m.text.n < 300000 && !memchr(m.text.p, 0, m.text.n)) break; vs_msg_free(&m); } while (1);
    if (c->s < 0) { c->s = dial(j->port); c->used = 0; if (c->s < 0) { vh_viol("http:connect", "connection refused"); vs_msg_free(&m); return; } }
    one_post(r, c, j->path, m.text.p, m.text.n, 0);
    int status = 0, ends; char* b; size_t bn; int k = get_response(c, &status, &b, &bn, &ends, 0);
    if (k != 1) { if (!(k == 0 && c->used)) vh_viol("http:server-lost", "%s: %.80s", k == -2 ? "no complete response after 30 s" : "no complete response", m.text.p); hang_up(c, 0); free(b); vs_msg_free(&m); return; }
    c->used++; j->done++;
    if (bn == 0 && status < 300) vs_check(j->vw, &m, NULL, 0, 0);
    else if (status == 200) vs_check(j->vw, &m, b, bn, 0);
    else if (!m.garbage && !(m.batch && !m.n) && !(m.n == 1 && m.e[0].kind == VS_INVALID)) vh_viol("http:server-status", "status %d \"%.80s\" for %.80s", status, b, m.text.p);
    vh_distinct(vh_hash(m.text.p, m.text.n, 3)); free(b); vs_msg_free(&m);
    if (ends || vh_chance(r, 10)) hang_up(c, (int)vh_below(r, 3));
}
static void hostile(job* j, vh_rng* r) {
    conn c = { .s = dial(j->port) }; if (c.s < 0) { vh_viol("http:connect", "connection refused"); return; }
    char h[9000]; int k = 0, want = 0; long id = atomic_fetch_add(&next_id, 1); size_t qn; char* q = NULL; if (id >= MAXREQ) { hang_up(&c, 0); return; }
    switch (vh_below(r, 13)) {
        case 0: for (k = 0; k < (int)(1 + vh_below(r, 3000)); k++) h[k] = (char)vh_next(r); break;
        case 1: k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nX-Long: ", j->path); memset(h + k, 'a', 6000); k += 6000; k += sprintf(h + k, "\r\nContent-Length: 5\r\n\r\nhello"); break;
        case 2: k = sprintf(h, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", vh_chance(r, 50) ? "GET" : "HEAD", "/nowhere"); want = 1; break;
        case 3: k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n{\"part", j->path, 100 + (int)vh_below(r, 100000)); break;     /* the rest never comes */
        case 4: k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nConte", j->path); break;
        case 5: q = mkreq(r, id, ANSWER, vh_below(r, 500), 300000 + vh_below(r, 300000), &qn); k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %zu\r\n\r\n", j->path, qn); break;   /* answer never read */
        case 6: k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n", j->path); want = 1; break;
        case 7: k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %s\r\n\r\n", j->path, vh_chance(r, 50) ? "-5" : "99999999999999999999"); break;
        case 8: { static const char* ms[] = { "PUT", "PATCH", "DELETE", "HEAD", "CONNECT", "TRACE", "get", "FOO" }; k = sprintf(h, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n{}", ms[vh_below(r, 8)], j->path); break; }
        case 11: q = mkreq(r, id, ANSWER, vh_below(r, 3000), 10, &qn); k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %zu\r\n\r\n", vh_chance(r, 50) ? "/nowhere" : "/call_tools", qn); want = 3; break;
        case 9: k = sprintf(h, "OPTIONS %s HTTP/1.1\r\nHost: x\r\n%s\r\n\r\n", j->path, vh_chance(r, 50) ? "Connection: close" : "Connection: keep-alive"); want = 2; break;
        case 10: k = sprintf(h, "GET %s HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n\r\n", j->w && j->w->st ? j->path : "/events"); break;
        default: q = mkreq(r, id, ANSWER, vh_below(r, 50000), 10, &qn); k = sprintf(h, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %zu\r\n\r\n", j->path, qn); qn = vh_below(r, qn); break;      /* cut off */
    }
    put(r, c.s, h, (size_t)k, (int)vh_below(r, 4)); if (q) { put(r, c.s, q, qn, 2); free(q); }
    if (want) {
        int status = 0, ends; char* b; size_t bn; int g = get_response(&c, &status, &b, &bn, &ends, memcmp(h, "HEAD", 4) == 0);
        if (g == -2) vh_viol("http:broken-hangs", "no response and no close within 30 s: %.40s", h); else if (g == 1 && want != 2 && status < 400) vh_viol("http:broken-accepted", "status %d for %.40s", status, h);
        free(b);
        if (want == 3 && j->w && !j->vw && j->w->seen && atomic_load(&j->w->seen[id])) vh_viol("http:wrong-path", "a request posted to a path the server does not serve was handed to the callback: %.30s", h);
    } else if (vh_chance(r, 50)) vh_usleep((long)vh_below(r, 20000));
    hang_up(&c, (int)vh_below(r, 3)); j->done++;
}
static void* client(void* a) {
    job* j = a; vh_rng r; vh_rng_seed(&r, j->seed); conn c = { .s = -1 };
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) { if (j->attack) hostile(j, &r); else if (j->vw) vs_exchange(j, &r, &c); else exchange(j, &r, &c); }
    hang_up(&c, (int)vh_below(&r, 3)); return NULL;
}
static void run_clients(world* w, vs_world* vw, uint16_t port, const char* path, vh_rng* r, int good, int bad, long each) {
    job js[64]; pthread_t th[64]; int n = good + bad; memset(js, 0, sizeof js);
    for (int i = 0; i < n; i++) { js[i] = (job){ .w = w, .vw = vw, .port = port, .path = path, .seed = vh_next(r), .n = each, .attack = i >= good }; pthread_create(&th[i], NULL, client, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(js[i].done); vh_count(js[i].attack ? "broken requests" : "answers compared", js[i].done); vh_count("exchanges on a kept connection", js[i].kept); vh_count("notifications", js[i].notes); }
}
static void m_call(vh_rng* r, int st) {
    world* w = open_world(r, st); int good = 1 + (int)vh_below(r, 10), bad = vh_chance(r, 70) ? 1 + (int)vh_below(r, 4) : 0;
    run_clients(w, NULL, w->port, w->path, r, good, bad, vh_cases / 3 / (good + bad) + 1);
    close_world(w, r);
}
static void m_server(vh_rng* r, int st) {
    vs_cfg c = { .thread_pool = 2, .key = vh_chance(r, 50) ? "k3y" : NULL }; uint16_t port; const char* path; mcp_transport_t* t;
    port = free_port(); t = make(r, st, port, &path); vs_world* vw = vs_open(r, &c, t); world w = { .st = st };
    run_clients(&w, vw, port, path, r, 1 + (int)vh_below(r, 6), vh_chance(r, 50) ? 2 : 0, vh_cases / 8 + 1);
    vs_close(vw); mcp_transport_destroy(t);
}
/* ---- calls by GET ---- */
#define GETS 64
typedef struct { char name[80]; char key[8][40], val[8][300]; int n; long id; } getcall;
typedef struct { pthread_mutex_t m; getcall* open[GETS]; _Atomic(long) calls; } gets;
static char* get_serve(void* u, const void* data, size_t size, int* err) {
    gets* g = u; *err = 0; atomic_fetch_add(&g->calls, 1); vj_info vi; vj* v = vj_parse(data, size, &vi); vj* p = v ? vj_get(v, "params") : NULL; const char* nm = p ? vj_str(p, "name") : NULL; vj* a = p ? vj_get(p, "arguments") : NULL; const char* me = v ? vj_str(v, "method") : NULL;
    if (!v || !nm || !a || a->t != VJ_OBJ || !me || strcmp(me, "call_tool") || !vj_get(v, "id")) { vh_viol("get:request", "what the callback got for a GET is no tool call: %.200s", (const char*)data); if (v) vj_free(v); *err = -32600; return NULL; }
    const char* tag = vj_str(a, "tag"); long id = tag ? atol(tag) : -1; char* o = NULL; pthread_mutex_lock(&g->m); getcall* c = NULL; for (int i = 0; i < GETS; i++) if (g->open[i] && g->open[i]->id == id) c = g->open[i];
    if (!c) vh_viol("get:unknown", "the callback got a call nobody made: %.200s", (const char*)data);
    else { int bad = strcmp(c->name, nm) || a->cnt != (size_t)c->n + 1; for (int i = 0; i < c->n && !bad; i++) { const char* s = vj_str(a, c->key[i]); if (!s || strcmp(s, c->val[i])) bad = 2 + i; }
        if (bad) vh_viol("get:arguments", "tool \"%s\" with \"%s\"=\"%s\" (%d arguments) was asked for by GET; the callback got %.300s", c->name, c->n ? c->key[bad > 1 ? bad - 2 : 0] : "", c->n ? c->val[bad > 1 ? bad - 2 : 0] : "", c->n + 1, (const char*)data);
        size_t k = (size_t)(c->id % 7 == 0 ? 30000 : 20); o = malloc(k + 100); int z = sprintf(o, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"@%ld@", id); memset(o + z, 'r', k); strcpy(o + z + k, "\"}"); }
    pthread_mutex_unlock(&g->m); vj_free(v); if (!o) *err = -32602; return o;
}
typedef struct { gets* g; uint16_t port; uint64_t seed; long n, done; } getter;
static void word(vh_rng* r, char* o, size_t max, int hard) { static const char* ch = "abcXYZ019_-."; static const char* odd[] = { "%", "&", "=", "+", " ", "/", "?", "#", "%20", "%25", "%41", ";", "\"", "\\", "\xc3\xa9", "name=", "&name=x", "param_", "~", "'", "<", "\xe2\x82\xac" }; size_t n = vh_below(r, max), k = 0; while (k < n) { if (hard && vh_chance(r, 30)) { const char* s = odd[vh_below(r, 22)]; if (k + strlen(s) >= max) break; strcpy(o + k, s); k += strlen(s); } else o[k++] = ch[vh_below(r, 12)]; } o[k] = 0; }
static void quote(vh_rng* r, char** o, const char* s) { for (; *s; s++) { unsigned char c = (unsigned char)*s; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '-') { if (vh_chance(r, 5)) *o += sprintf(*o, "%%%02x", c); else *(*o)++ = (char)c; } else *o += sprintf(*o, vh_chance(r, 50) ? "%%%02X" : "%%%02x", c); } **o = 0; }
static void* getting(void* a) {
    getter* j = a; vh_rng r; vh_rng_seed(&r, j->seed); static _Atomic(long) ids = 1; conn c = { .s = -1 };
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        getcall* q = calloc(1, sizeof *q); q->id = atomic_fetch_add(&ids, 1); do word(&r, q->name, 30, vh_chance(&r, 20)); while (!q->name[0]); q->n = (int)vh_below(&r, 6);
        for (int k = 0; k < q->n; k++) { static const char* common[] = { "text", "name", "surname", "param_x", "x", "session_id" }; if (vh_chance(&r, 40)) strcpy(q->key[k], common[vh_below(&r, 6)]); else { do word(&r, q->key[k], 12, 0); while (!q->key[k][0]); } for (int z = 0; z < k || !strcmp(q->key[k], "tag"); z++) if (z >= k || !strcmp(q->key[z], q->key[k])) { sprintf(q->key[k], "u%d", k); z = -1; if (!k) break; } word(&r, q->val[k], vh_chance(&r, 90) ? 40 : 280, vh_chance(&r, 60)); }
        char* h = malloc(9000); char* o = h + sprintf(h, "GET /call_tool?"); int pos = (int)vh_below(&r, (uint64_t)q->n + 2), tagat = (int)vh_below(&r, (uint64_t)q->n + 2), first = 1;
        for (int k = 0; k <= q->n + 1; k++) { if (k == pos) { o += sprintf(o, "%sname=", first ? "" : "&"); quote(&r, &o, q->name); first = 0; } if (k == tagat) { o += sprintf(o, "%sparam_tag=%ld", first ? "" : "&", q->id); first = 0; } if (k < q->n) { o += sprintf(o, "%sparam_%s=", first ? "" : "&", q->key[k]); quote(&r, &o, q->val[k]); first = 0; } }
        size_t ql = (size_t)(o - h) - 15; o += sprintf(o, " HTTP/1.1\r\nHost: x\r\n\r\n"); if (ql > 900) { free(h); free(q); continue; }
        pthread_mutex_lock(&j->g->m); int slot = 0; while (j->g->open[slot]) slot++; j->g->open[slot] = q; pthread_mutex_unlock(&j->g->m);
        if (c.s < 0) c.s = dial(j->port); int status = 0, ends = 1, g = -3; char* b = NULL; size_t bn = 0; if (c.s < 0) vh_viol("http:connect", "connection refused"); else { put(&r, c.s, h, (size_t)(o - h), (int)vh_below(&r, 4)); g = get_response(&c, &status, &b, &bn, &ends, 0); }
        char want[60]; int wn = sprintf(want, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"@%ld@r", q->id); size_t full = (size_t)wn - 1 + (q->id % 7 == 0 ? 30000 : 20) + 2; if (g == 0 && c.used) ; else if (g != 1 || status != 200 || bn != full || memcmp(b, want, (size_t)wn)) { if (vh_viol_count() == 0) vh_viol("get:answer", "response %d, status %d, %zu bytes \"%.60s\" to %.300s", g, status, bn, b ? b : "", h); } else { j->done++; vh_distinct(vh_hash(h, (size_t)(o - h), 4)); if (j->done % 60 == 1) vh_sample("%.150s: %d arguments reached the callback, own answer", h, q->n + 1); }
        c.used++; if (g != 1 || ends || vh_chance(&r, 30)) { hang_up(&c, 0); c.s = -1; c.used = 0; } pthread_mutex_lock(&j->g->m); j->g->open[slot] = NULL; pthread_mutex_unlock(&j->g->m); free(b); free(h); free(q);
    }
    hang_up(&c, 0); return NULL;
}
static void m_get(vh_rng* r) {
    gets g = { .m = PTHREAD_MUTEX_INITIALIZER }; mcp_transport_t* t = NULL; uint16_t port = 0; const char* path; for (int i = 0; i < 20; i++) { port = free_port(); t = make(r, 0, port, &path); if (!t) break; if (mcp_transport_start(t, get_serve, &g, NULL) == 0) break; mcp_transport_destroy(t); t = NULL; } if (!t) { vh_viol("http:start", "transport did not start on 20 free ports"); return; }
    getter js[8]; pthread_t th[8]; int n = 1 + (int)vh_below(r, 8); for (int i = 0; i < n; i++) { js[i] = (getter){ .g = &g, .port = port, .seed = vh_next(r), .n = vh_cases / n + 1 }; pthread_create(&th[i], NULL, getting, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(js[i].done); vh_count("calls by GET compared", js[i].done); } mcp_transport_destroy(t);
}
/* ---- origins ---- */
#define ORIGINS 8
typedef struct { char allowed[ORIGINS][400]; int n; world* w; int legacy; const char* path; } guest_list;
typedef struct { guest_list* l; uint64_t seed; long n, passed, refused, streams; } guest;
static int welcome(const guest_list* l, const char* o) { for (int i = 0; i < l->n; i++) { size_t k = strlen(l->allowed[i]); if (!strcmp(l->allowed[i], o) || (l->allowed[i][k - 1] == '*' && !strncmp(l->allowed[i], o, k - 1))) return 1; } return 0; }
static void host(vh_rng* r, char* o) { static const char* h[] = { "localhost", "a.example", "app.example.com", "example.com", "127.0.0.1", "b-c.example", "[::1]", "le.com" }; int k = sprintf(o, "%s://", vh_chance(r, 50) ? "http" : "https"); if (vh_chance(r, 80)) k += sprintf(o + k, "%s", h[vh_below(r, 8)]); else { int n = 1 + (int)vh_below(r, vh_chance(r, 80) ? 12 : 200); for (int i = 0; i < n; i++) o[k++] = "abcdefghij-.0123"[vh_below(r, 16)]; o[k] = 0; } if (vh_chance(r, 40)) sprintf(o + k, ":%d", (int)vh_below(r, 65536)); }
static void name_origin(vh_rng* r, const guest_list* l, char* o) {      /* allowed ones, near misses and strangers */
    static const char* tail[] = { ".evil.example", "/", "x", ":80", "0", ",", "@evil.example", "#", "?", ".", "*" }; strcpy(o, l->allowed[vh_below(r, (uint64_t)l->n)]); size_t k = strlen(o); int star = k && o[k - 1] == '*'; uint64_t how = vh_below(r, 12);
    if (how < 4) { if (star) sprintf(o + k - 1, "%d", (int)vh_below(r, 65536)); }
    else if (how == 4) strcpy(o + k - (size_t)(star && vh_chance(r, 80)), tail[vh_below(r, 11)]);
    else if (how == 5) { size_t cut = 1 + vh_below(r, k > 6 ? 6 : k); o[k - cut] = 0; }
    else if (how == 6) { memmove(o + 1, o, k + 1); o[0] = "xh/"[vh_below(r, 3)]; }
    else if (how == 7) { size_t at = vh_below(r, k); o[at] = o[at] == 'z' ? 'y' : 'z'; }
    else if (how == 8) strcpy(o, "null");
    else if (how == 9) { host(r, o); k = strlen(o); size_t to = 200 + vh_below(r, vh_chance(r, 50) ? 120 : 900); while (k < to) o[k++] = "abc."[vh_below(r, 4)]; o[k] = 0; }
    else if (how == 10) { size_t to = 230 + vh_below(r, 300); if (star) k--; while (k < to) o[k++] = "evl."[vh_below(r, 4)]; o[k] = 0; }
    else host(r, o);
    if (!o[0]) strcpy(o, "null");
}
static void* visit(void* a) {
    guest* j = a; vh_rng r; vh_rng_seed(&r, j->seed); guest_list* l = j->l; conn c = { .s = -1 };
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        char o[2000] = ""; int with = vh_chance(&r, 90); if (with) name_origin(&r, l, o); int ok = !with || welcome(l, o), open = ok && strlen(o) >= 256;      /* an overlong origin may be refused although it fits */
        int stream = vh_chance(&r, 25); long id = atomic_fetch_add(&next_id, 1); if (id >= MAXREQ) break; size_t bn0, n = pick(&r) % 5000, rlen = vh_below(&r, 300); char* body = mkreq(&r, id, ANSWER, n, rlen, &bn0); char* h = malloc(bn0 + 6000); static const char* nm[] = { "Origin", "origin", "ORIGIN", "Origin" };
        int k = stream ? sprintf(h, "GET %s HTTP/1.1\r\nHost: x\r\n", l->legacy && vh_chance(&r, 40) ? "/events" : l->path) : sprintf(h, "POST %s HTTP/1.1\r\n", l->path); char decoy[100]; sprintf(decoy, "%s: http://localhost:1\r\n", vh_chance(&r, 50) ? "X-Origin" : "Referer"); if (vh_chance(&r, 20)) k += sprintf(h + k, "%s", decoy);
        int first = vh_chance(&r, 50); if (with && first) k += sprintf(h + k, "%s: %s\r\n", nm[vh_below(&r, 4)], o); if (!stream) k += sprintf(h + k, "Host: x\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n", bn0); k += sprintf(h + k, "Accept: %s\r\n", stream ? "text/event-stream" : "application/json"); if (with && !first) k += sprintf(h + k, "%s: %s\r\n", nm[vh_below(&r, 4)], o); k += sprintf(h + k, "\r\n"); if (!stream) { memcpy(h + k, body, bn0); k += (int)bn0; }
        if (stream && c.s >= 0 && vh_chance(&r, 50)) { hang_up(&c, 0); c.s = -1; c.used = 0; }
        if (c.s < 0) { c.s = dial(l->w->port); c.used = 0; } int status = 0, ends = 1, g = -3; char* b = NULL; size_t bn = 0; if (c.s < 0) { vh_viol("http:connect", "connection refused"); free(body); free(h); break; } put(&r, c.s, h, (size_t)k, (int)vh_below(&r, 4)); g = get_response(&c, &status, &b, &bn, &ends, stream);
        int handed = atomic_load(&l->w->seen[id]);
        if (g == 0 && c.used) ;                                     /* the kept connection had ended */
        else if (g != 1) vh_viol("origin:no-answer", "response %d to a %s with origin \"%.300s\"", g, stream ? "GET" : "POST", with ? o : "(none)");
        else if (!ok) { if (handed) vh_viol("origin:handed-over", "origin \"%.300s\" is not allowed (\"%s\", ...), yet its request reached the application", o, l->allowed[0]); else if (status < 400 || status > 499) vh_viol("origin:served", "origin \"%.300s\" is not allowed (\"%s\", ...), yet a %s got status %d", o, l->allowed[0], stream ? "GET" : "POST", status); else { j->refused++; vh_distinct(vh_hash(o, strlen(o), 11)); if (j->refused % 40 == 1) vh_sample("origin %.80s refused with %d", o, status); } }
        else if (open) ;
        else if (status != 200) vh_viol("origin:refused", "origin \"%.300s\" is allowed, yet a %s got status %d", with ? o : "(none)", stream ? "GET" : "POST", status);
        else if (stream) j->streams++;
        else { const char* pad = strstr(body, "@\",\"") + 4; char* want = mkans(id, rlen, vh_hash(pad, n, 5)); if (bn != strlen(want) || memcmp(want, b, bn)) vh_viol("origin:answer", "origin \"%.300s\": another answer than its own", with ? o : "(none)"); else { j->passed++; vh_distinct(vh_hash(o, strlen(o), 12)); } free(want); }
        c.used++; if (g != 1 || ends || (stream && status == 200) || stream || vh_chance(&r, 20)) { hang_up(&c, 0); c.s = -1; c.used = 0; } free(b); free(body); free(h);
    }
    hang_up(&c, 0); return NULL;
}
static void m_origin(vh_rng* r) {
    guest_list l; memset(&l, 0, sizeof l); l.n = 1 + (int)vh_below(r, ORIGINS); char text[4000]; int k = 0;
    for (int i = 0; i < l.n; i++) { if (vh_chance(r, 25)) strcpy(l.allowed[i], vh_chance(r, 50) ? "http://localhost:*" : "https://localhost:*"); else { host(r, l.allowed[i]); char* p = strchr(l.allowed[i] + 7, ':'); if (vh_chance(r, 30)) { if (p && p[1] >= '0' && p[1] <= '9') strcpy(p, ":*"); else strcat(l.allowed[i], ":*"); } } k += sprintf(text + k, "%s%s%s", i ? "," : "", vh_chance(r, 30) ? " " : "", l.allowed[i]); if (vh_chance(r, 20)) k += sprintf(text + k, "\t "); }
    world* w = calloc(1, sizeof *w); w->seen = calloc(MAXREQ, 1); w->st = 1; atomic_store(&next_id, 0); l.w = w;
    for (int i = 0; i < 20 && !w->t; i++) { mcp_sthttp_config_t c = MCP_STHTTP_CONFIG_DEFAULT; c.port = w->port = free_port(); c.validate_origin = 1; c.allowed_origins = text; c.enable_cors = vh_chance(r, 50); c.enable_sessions = vh_chance(r, 70); l.legacy = c.enable_legacy_endpoints = vh_chance(r, 50); l.path = l.legacy && vh_chance(r, 30) ? "/call_tool" : c.mcp_endpoint; w->t = mcp_transport_sthttp_create(&c); if (!w->t) break; if (mcp_transport_start(w->t, serve, w, NULL)) { mcp_transport_destroy(w->t); w->t = NULL; } }
    if (!w->t) { vh_viol("http:start", "transport did not start on 20 free ports"); return; }
    guest js[8]; pthread_t th[8]; int n = 1 + (int)vh_below(r, 6); for (int i = 0; i < n; i++) { js[i] = (guest){ .l = &l, .seed = vh_next(r), .n = vh_cases / n + 1 }; pthread_create(&th[i], NULL, visit, &js[i]); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(js[i].passed + js[i].refused + js[i].streams); vh_count("requests of allowed origins answered", js[i].passed); vh_count("requests of other origins refused", js[i].refused); vh_count("streams opened for allowed origins", js[i].streams); }
    close_world(w, r);
}
/* ---- files ---- */
typedef struct { char uri[1200]; char* data; size_t n; } file;
typedef struct { file in[64]; int ins; const char* outside[8]; int outs; uint64_t tag; char root[400]; } tree;
typedef struct { tree* t; uint16_t port; uint64_t seed; long n, served, refused; } browser;
static void put_file(const char* path, const char* p, size_t n) { FILE* f = fopen(path, "wb"); if (!f || fwrite(p, 1, n, f) != n || fclose(f)) { perror(path); exit(3); } }
static void wipe(const char* d) { DIR* x = opendir(d); if (!x) return; struct dirent* e; while ((e = readdir(x))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[2000]; snprintf(p, sizeof p, "%s/%s", d, e->d_name); struct stat s; if (!lstat(p, &s) && S_ISDIR(s.st_mode)) wipe(p); else unlink(p); } closedir(x); rmdir(d); }
static void add(tree* t, vh_rng* r, const char* uri) {
    file* f = &t->in[t->ins++]; snprintf(f->uri, sizeof f->uri, "%s", uri); int x = (int)vh_below(r, 100); f->n = x < 5 ? 0 : x < 60 ? vh_below(r, 500) : x < 90 ? vh_below(r, 20000) : vh_below(r, 400000);
    f->data = malloc(f->n + 100); int k = f->n ? sprintf(f->data, "INSIDE-%llx-%d-", (unsigned long long)t->tag, t->ins) : 0; for (size_t i = (size_t)k; i < f->n; i++) f->data[i] = (char)vh_next(r); if ((size_t)k > f->n) f->n = (size_t)k;
    char p[2000]; snprintf(p, sizeof p, "%s%s", t->root, uri); put_file(p, f->data, f->n);
}
static void build_tree(tree* t, vh_rng* r, const char* base) {
    static const char* ext[] = { "html", "txt", "css", "js", "png", "svg", "gif", "jpg", "md", "csv", "mp4", "pdf", "xyz", "HTML" }; char p[1500]; t->tag = vh_next(r);
    snprintf(t->root, sizeof t->root, "%s/www", base); wipe(base); mkdir(base, 0700); mkdir(t->root, 0700);
    static const char* dirs[] = { "/sub", "/sub/deep", "/a b", "/x.y" }; for (int i = 0; i < 4; i++) { snprintf(p, sizeof p, "%s%s", t->root, dirs[i]); mkdir(p, 0700); }
    for (int i = 0; i < 24; i++) { char u[300]; snprintf(u, sizeof u, "%s/f%d.%s", i < 8 ? "" : dirs[vh_below(r, 4)], i, ext[vh_below(r, 14)]); add(t, r, u); }
    { char u[1200] = "", d[260]; for (int i = 0; i < 2; i++) { memset(d, 'd', 180); d[180] = 0; strcat(strcat(u, "/"), d); snprintf(p, sizeof p, "%s%s", t->root, u); mkdir(p, 0700); }      /* paths around the lengths code likes to keep them in */
      size_t at = strlen(t->root) + strlen(u); static const size_t lens[] = { 510, 511, 512, 513 }; for (int i = 0; i < 4; i++) if (lens[i] > at + 10 && lens[i] - at < 250) { size_t k = lens[i] - at - 1; char v[1500]; snprintf(v, sizeof v, "%s/", u); size_t z = strlen(v); memset(v + z, 'q', k - 3); strcpy(v + z + k - 3, ".md"); add(t, r, v); } }
    static const char* outs[] = { "/secret.txt", "/www-private/secret.txt", "/secret.html", "/other/deep/secret.md" }; snprintf(p, sizeof p, "%s/www-private", base); mkdir(p, 0700); snprintf(p, sizeof p, "%s/other", base); mkdir(p, 0700); snprintf(p, sizeof p, "%s/other/deep", base); mkdir(p, 0700);
    char sec[200]; int n = sprintf(sec, "OUTSIDE-%llx-keep this", (unsigned long long)t->tag); for (int i = 0; i < 4; i++) { snprintf(p, sizeof p, "%s%s", base, outs[i]); put_file(p, sec, (size_t)n); t->outside[t->outs++] = outs[i]; }
}
static void encode(vh_rng* r, char* o, const char* s, int pct, int twice) {      /* pct of 100 of the characters percent-encoded; blanks always */
    for (; *s; s++) { if (*s == ' ' || (*s != '/' && vh_chance(r, pct)) || (*s == '/' && twice && vh_chance(r, pct))) o += sprintf(o, twice && vh_chance(r, 50) ? "%%25%02x" : vh_chance(r, 50) ? "%%%02x" : "%%%02X", (unsigned char)*s); else *o++ = *s; } *o = 0;
}
static int ask(browser* b, vh_rng* r, const char* uri, int* status, char** body, size_t* n) {
    conn c = { .s = dial(b->port) }; if (c.s < 0) { vh_viol("http:connect", "connection refused"); return -3; } size_t hl = strlen(uri) + 200; char* h = malloc(hl); int ends, k = snprintf(h, hl, "GET %s HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: %s\r\n\r\n", uri, vh_chance(r, 50) ? "close" : "keep-alive");
    put(r, c.s, h, (size_t)k, (int)vh_below(r, 4)); free(h); int g = get_response(&c, status, body, n, &ends, 0); hang_up(&c, 0); return g;
}
static void judge(browser* b, const char* uri, int g, int status, const char* body, size_t n) {
    char sec[60]; int sn = sprintf(sec, "OUTSIDE-%llx", (unsigned long long)b->t->tag);
    if (body && n && memmem(body, n, sec, (size_t)sn)) vh_viol("files:outside", "a file outside the document root was served (status %d) for %.200s", status, uri);
    if (g == -2) vh_viol("files:no-answer", "neither response nor close within 30 s for %.200s", uri);
}
static int common(const char* uri) { static const char* e[] = { ".html", ".txt", ".css", ".js", ".png", ".svg", ".gif", ".jpg" }; const char* d = strrchr(uri, '.'); for (int i = 0; i < 8; i++) if (!strcmp(d, e[i])) return 1; return 0; }
static void* browse(void* a) {
    browser* b = a; tree* t = b->t; vh_rng r; vh_rng_seed(&r, b->seed);
    for (long i = 0; i < b->n && vh_viol_count() < 5; i++) {
        char uri[8000], raw[3000]; int status = 0; char* body = NULL; size_t n = 0; int g;
        if (vh_chance(&r, 50)) {        /* a file that is there */
            file* f = &t->in[vh_below(&r, (uint64_t)t->ins)]; encode(&r, uri, f->uri, vh_chance(&r, 60) ? 0 : 30, 0); if (vh_chance(&r, 15)) strcat(uri, "?v=1&w=/../x");
            g = ask(b, &r, uri, &status, &body, &n); judge(b, uri, g, status, body, n);
            if (g == 1 && status == 200 && (n != f->n || memcmp(body, f->data, n))) vh_viol("files:content", "%.100s: %zu bytes served, the file has %zu and other content", uri, n, f->n);
            else if (!(g == 1 && status == 200) && strlen(t->root) + strlen(f->uri) < 256 && common(f->uri)) vh_viol("files:missing", "%.200s is in the document root (%zu bytes), but the response is %d (%d)", uri, f->n, g, status);
            if (g == 1 && status == 200) b->served++; vh_distinct(vh_hash(uri, strlen(uri), f->n));
        } else if (vh_chance(&r, 30)) {     /* nothing there: near an existing name */
            file* f = &t->in[vh_below(&r, (uint64_t)t->ins)]; snprintf(raw, sizeof raw, "%s", f->uri); size_t k = strlen(raw); switch (vh_below(&r, 5)) { case 0: strcat(raw, "x"); break; case 1: raw[k - 1] = '~'; break; case 2: strcat(raw, ".md"); break; case 3: memmove(raw + 2, raw + 1, k); raw[1] = 'Z'; break; default: strcat(raw, "qqqq.md"); }
            encode(&r, uri, raw, vh_chance(&r, 70) ? 0 : 20, 0); g = ask(b, &r, uri, &status, &body, &n); judge(b, uri, g, status, body, n);
            if (g == 1 && status == 200) vh_viol("files:ghost", "there is no file %.200s, but %zu bytes were served for it: %.40s", uri, n, body); else if (g != 1 && g != -2 && strlen(uri) < 600) vh_viol("files:closed", "no response, only the end of the connection, for %.200s, which is not there", uri); else b->refused++; vh_distinct(vh_hash(uri, strlen(uri), 2));
        } else {        /* out of the root, by every spelling */
            static const char* up[] = { "../", "..//", "/../", "./../", "..\\", "../../", "....//", "%2e%2e/", "..%2f", "%2e%2e%2f", "..%5c", "%252e%252e%252f", "%252e%252e/", "..%252f", ".%2e/", "%c0%ae%c0%ae/", "sub/../../", "nowhere/../../", "sub/deep/../../../", "..;/", "..%00/", "%2e./", "...//" };
            const char* o = t->outside[vh_below(&r, (uint64_t)t->outs)]; int k = 0; raw[0] = 0;
            if (vh_chance(&r, 15)) snprintf(raw, sizeof raw, "%s%.*s%s", vh_chance(&r, 50) ? "/" : "", (int)(strlen(t->root) - 4), t->root, o);      /* absolute */
            else if (vh_chance(&r, 15)) snprintf(raw, sizeof raw, "%s", vh_chance(&r, 50) ? "-private/secret.txt" : "/-private/secret.txt");
            else { k = sprintf(raw, "/%s", vh_chance(&r, 60) ? "" : vh_chance(&r, 50) ? "sub/" : "sub/deep/"); int m = 1 + (int)vh_below(&r, 4); const char* one = up[vh_below(&r, sizeof up / sizeof *up)]; for (int q = 0; q < m; q++) k += sprintf(raw + k, "%s", vh_chance(&r, 80) ? one : up[vh_below(&r, sizeof up / sizeof *up)]); strcpy(raw + k, o + 1); }
            if (vh_chance(&r, 25)) { char again[8000]; again[0] = 0; encode(&r, again, raw, 30, vh_chance(&r, 50)); snprintf(uri, sizeof uri, "%s", again); } else snprintf(uri, sizeof uri, "%s", raw);
            for (char* z = uri; *z; z++) if (*z == ' ') *z = '+';
            g = ask(b, &r, uri, &status, &body, &n); judge(b, uri, g, status, body, n);
            if (g != 1 || status != 200) b->refused++; vh_distinct(vh_hash(uri, strlen(uri), 3)); if (i % 40 == 3) vh_sample("GET %.120s: status %d, nothing from outside the root", uri, status);
        }
        free(body);
    }
    return NULL;
}
static void m_files(vh_rng* r, int st) {
    tree* t = calloc(1, sizeof *t); char base[300]; snprintf(base, sizeof base, "%s/tree%d", vh_dir, st); build_tree(t, r, base); doc_root = t->root; world* w = open_world(r, st); browser bs[8]; pthread_t th[8]; int n = 1 + (int)vh_below(r, 6);
    for (int i = 0; i < n; i++) { bs[i] = (browser){ .t = t, .port = w->port, .seed = vh_next(r), .n = vh_cases / n + 1 }; pthread_create(&th[i], NULL, browse, &bs[i]); }
    run_clients(w, NULL, w->port, w->path, r, 2, vh_chance(r, 50), vh_cases / 10 + 1);
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); vh_evals(bs[i].served + bs[i].refused); vh_count("files served and compared", bs[i].served); vh_count("requests for nothing inside the root", bs[i].refused); }
    close_world(w, r); doc_root = NULL; for (int i = 0; i < t->ins; i++) free(t->in[i].data); free(t); wipe(base);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); lws_set_log_level(0, NULL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "call")) for (int i = 0; i < 3 && vh_viol_count() < 5; i++) m_call(&r, 0);
    else if (!strcmp(vh_mode, "stcall")) for (int i = 0; i < 3 && vh_viol_count() < 5; i++) m_call(&r, 1);
    else if (!strcmp(vh_mode, "get")) m_get(&r);
    else if (!strcmp(vh_mode, "origin")) for (int i = 0; i < 3 && vh_viol_count() < 5; i++) m_origin(&r);
    else if (!strcmp(vh_mode, "files")) for (int i = 0; i < 2 && vh_viol_count() < 5; i++) m_files(&r, i);
    else { m_server(&r, 0); m_server(&r, 1); }
    return vh_finish();
}
