/* The standard input/output transport (P25). Each case forks a child whose standard streams are pipes; the child runs the
   transport, the parent is the other side, writes frames cut into random pieces and judges every byte that comes back.
   serve:  callback answers, other threads of the child send at the same time; the input ends, breaks off, turns illegal or stays open
   recv:   the child receives with time limits what arrives in bursts
   client: a real client in the child, its calls answered out of order */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include "vh.h"
#include "vj.h"
#include "mcp_transport.h"
#include "mcp_stdio_transport.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_client.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_log.h"

/* what the child makes of the k-th message (counted from 0) */
static char* answer(const void* m, size_t n, long k) {
    if (n && ((const char*)m)[0] == 'n') return NULL;
    uint64_t h = vh_hash(m, n, 7), x = h ^ (uint64_t)k * 77; size_t l = x % 10 < 7 ? x % 311 : x % 10 < 9 ? x % 20011 : x % 300007; char* o = malloc(l + 80);
    int p = sprintf(o, "A%ld:%zu:%016llx:", k, n, (unsigned long long)h); for (size_t i = 0; i < l; i++) o[(size_t)p + i] = (char)(33 + (h + i * 7 + i / 90) % 90); o[(size_t)p + l] = 0; return o;
}
/* the i-th frame thread t sends by itself */
static char* extra(int t, int i, uint64_t seed, size_t* n) {
    uint64_t h = vh_hash(&i, sizeof i, seed + (uint64_t)t); size_t l = h % 10 < 7 ? h % 200 : h % 10 < 9 ? h % 9001 : h % 120011; char* o = malloc(l + 80); int p = sprintf(o, "S%d:%d:", t, i);
    for (size_t k = 0; k < l; k++) o[(size_t)p + k] = (char)(1 + (h + k * 11 + k / 77) % 255); *n = l + (size_t)p; return o;
}
typedef struct { int nsend, each, kind, pool, restart; uint64_t seed; } plan;
static int ctl = -1;      /* child: commands from the parent */ static int rep = -1; /* child: words to the parent */
static void say(const char* s) { size_t n = strlen(s); if (write(rep, s, n) != (ssize_t)n) _exit(9); }

/* ---- child ---- */
static _Atomic(long) got;
static char* on_message(void* u, const void* d, size_t n, int* e) { (void)u; *e = 0; return answer(d, n, atomic_fetch_add(&got, 1)); }
typedef struct { mcp_transport_t* t; int me; const plan* p; } snd;
static void* sending(void* a) {
    snd* s = a; vh_rng r; vh_rng_seed(&r, s->p->seed + 1000 + (uint64_t)s->me);
    for (int i = 0; i < s->p->each; i++) {
        size_t n; char* m = extra(s->me, i, s->p->seed, &n); int rc;
        if (vh_chance(&r, 50)) rc = mcp_transport_send(s->t, m, n);
        else { mcp_buffer_t b[6]; size_t k = 1 + vh_below(&r, 6), at = 0; for (size_t j = 0; j < k; j++) { size_t l = j + 1 == k ? n - at : vh_below(&r, n - at + 1); b[j].data = m + at; b[j].size = l; at += l; } rc = mcp_transport_sendv(s->t, b, k); }
        if (rc) say("F"); free(m); if (vh_chance(&r, 30)) vh_usleep((long)vh_below(&r, 300));
    }
    return NULL;
}
static char command(void) { char c = 0; ssize_t k; do k = read(ctl, &c, 1); while (k < 0 && errno == EINTR); return k == 1 ? c : 'q'; }
static void child_serve(const plan* p) {
    if (p->pool) { mcp_memory_pool_system_init(4, 4, 4); mcp_thread_cache_init(); }
    mcp_transport_t* t = mcp_transport_stdio_create(); if (!t || mcp_transport_start(t, on_message, NULL, NULL)) exit(8);
    pthread_t th[4]; snd s[4]; for (int i = 0; i < p->nsend; i++) { s[i] = (snd){ t, i, p }; pthread_create(&th[i], NULL, sending, &s[i]); }
    for (int i = 0; i < p->nsend; i++) pthread_join(th[i], NULL);
    for (char c; (c = command()) != 'q';) {
        if (c == 's') { if (mcp_transport_stop(t)) say("X"); say("s"); } if (c == 'r') { if (mcp_transport_start(t, on_message, NULL, NULL)) say("X"); say("r"); }
    }
    if (mcp_transport_stop(t)) say("X"); mcp_transport_destroy(t); if (p->pool) { mcp_thread_cache_cleanup(); mcp_memory_pool_system_cleanup(); }
}
static void child_recv(const plan* p) {
    (void)p; mcp_transport_t* t = mcp_transport_stdio_create(); if (!t) exit(8); vh_rng r; vh_rng_seed(&r, p->seed + 5); long k = 0; int here = 0, now = 0; /* messages on their way; whether they have arrived in full */
    for (;;) {
        if (!here) { char c = command(); if (c == 'q') break; here = c & 127; now = !(c & 128); }
        char* m = NULL; size_t n = 0; static const uint32_t w[] = { 0, 1, 20, 1000, UINT32_MAX }; uint32_t tm = now ? w[vh_below(&r, 5)] : UINT32_MAX; int rc = mcp_transport_receive(t, &m, &n, tm);
        if (rc == 0 && m && n) { if (m[n] != 0) say("Z"); char* a = answer(m, n, k++); if (!a) a = strdup("-"); if (mcp_transport_send(t, a, strlen(a))) say("F"); free(a); free(m); here--; }
        else { say(rc == -2 ? "T" : "E"); char* a = strdup("!"); mcp_transport_send(t, a, 1); free(a); here--; k++; }
    }
    char* m = NULL; size_t n = 0; uint64_t t0 = vh_now_us(); int rc = mcp_transport_receive(t, &m, &n, 30); uint64_t d = vh_now_us() - t0; if (rc == 0) { fprintf(stderr, "left over: %zu bytes %.20s, k %ld\n", n, m ? m : "", k); say("G"); } if (rc == -2 && d < 25000) say("Y"); free(m); mcp_transport_destroy(t);
}
typedef struct { mcp_client_t* c; uint64_t seed; int n, me; } cal;
static void* calls(void* a) {
    cal* j = a; mcp_arena_init_current_thread(65536); vh_rng r; vh_rng_seed(&r, j->seed);
    for (int i = 0; i < j->n; i++) {
        size_t l = vh_chance(&r, 80) ? vh_below(&r, 300) : vh_below(&r, 60000); char* p = malloc(l + 100); int o = sprintf(p, "{\"k\":%d,\"f\":\"", j->me * 1000 + i); for (size_t k = 0; k < l; k++) p[(size_t)o + k] = (char)('a' + (k + (size_t)i) % 26); strcpy(p + o + l, "\"}");
        char *res = NULL, *msg = NULL; mcp_error_code_t ec = 0; int rc = mcp_client_send_request(j->c, "m", p, &res, &ec, &msg); free(p);
        vj* v = res ? vj_parse(res, strlen(res), NULL) : NULL; vj* k = v && v->t == VJ_OBJ ? vj_get(v, "k") : NULL; vj* n = v && v->t == VJ_OBJ ? vj_get(v, "n") : NULL;
        if (rc || !k || !n || (long)k->n != j->me * 1000 + i || (size_t)n->n != l) say(rc ? "C" : "W"); vj_free(v); free(res); free(msg);
    }
    mcp_arena_destroy_current_thread(); return NULL;
}
static void child_client(const plan* p) {
    mcp_transport_t* t = mcp_transport_stdio_create(); if (!t) exit(8); mcp_client_config_t cf = { .request_timeout_ms = 60000 }; mcp_client_t* c = mcp_client_create(&cf, t); if (!c) exit(8);
    pthread_t th[8]; cal js[8]; for (int i = 0; i < p->nsend; i++) { js[i] = (cal){ c, p->seed * 31 + (uint64_t)i, p->each, i }; pthread_create(&th[i], NULL, calls, &js[i]); } for (int i = 0; i < p->nsend; i++) pthread_join(th[i], NULL);
    say("d"); command(); mcp_client_destroy(c);
}

/* ---- parent ---- */
typedef struct { pid_t pid; int in, out, ctl, rep; char* buf; size_t n, cap; int eof; char words[256]; int nw; } kid;
static kid spawn(const plan* p, void (*f)(const plan*), vh_rng* r) {
    kid k = { 0 }; int a[2], b[2], c[2], d[2]; if (vh_chance(r, 50)) { if (pipe(a) || pipe(b)) exit(3); } else { int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(3); a[0] = s[1]; a[1] = s[0]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(3); b[0] = s[0]; b[1] = s[1]; }
    if (pipe(c) || pipe(d)) exit(3); fflush(NULL); k.pid = fork(); if (k.pid < 0) exit(3);
    if (!k.pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); close(a[0]); close(a[1]); close(b[0]); close(b[1]); close(c[1]); close(d[0]); ctl = c[0]; rep = d[1]; clearerr(stdin);
        f(p); close(ctl); exit(0);
    }
    close(a[0]); close(b[1]); close(c[0]); close(d[1]); k.in = a[1]; k.out = b[0]; k.ctl = c[1]; k.rep = d[0]; fcntl(k.in, F_SETFL, O_NONBLOCK); fcntl(k.out, F_SETFL, O_NONBLOCK); fcntl(k.rep, F_SETFL, O_NONBLOCK); return k;
}
static void hear(kid* k) { char c; while (read(k->rep, &c, 1) == 1) if (k->nw < 255) k->words[k->nw++] = c; k->words[k->nw] = 0; }
/* reads what is there and writes up to n bytes; returns the number written */
static size_t pump(kid* k, const char* p, size_t n, int ms) {
    struct pollfd f[3] = { { k->out, POLLIN, 0 }, { k->rep, POLLIN, 0 }, { k->in, POLLOUT, 0 } }; if (k->eof) f[0].fd = -1; if (poll(f, n ? 3 : 2, ms) < 0) return 0; size_t w = 0;
    if (f[0].revents) { if (k->cap - k->n < 70000) k->buf = realloc(k->buf, k->cap = k->cap * 2 + 140000); ssize_t z = read(k->out, k->buf + k->n, 65536); if (z > 0) k->n += (size_t)z; else if (!z || errno != EAGAIN) k->eof = 1; }
    if (f[1].revents) hear(k);
    if (n && f[2].revents) { ssize_t z = k->in >= 0 ? write(k->in, p, n) : -1; if (z > 0) w = (size_t)z; else if (z < 0 && errno != EAGAIN) w = n; } return w;
}
static int frame(kid* k, char** m, size_t* n) { if (k->n < 4) return 0; uint32_t be; memcpy(&be, k->buf, 4); *n = ntohl(be); if (*n > 2000000) return -1; if (k->n < 4 + *n) return 0; *m = malloc(*n + 1); memcpy(*m, k->buf + 4, *n); (*m)[*n] = 0; k->n -= 4 + *n; memmove(k->buf, k->buf + 4 + *n, k->n); return 1; }
static void order(kid* k, char c) { if (write(k->ctl, &c, 1) != 1) vh_note("child gone"); }
static int word(kid* k, char c) { uint64_t t0 = vh_now_us(); while (!strchr(k->words, c) && vh_now_us() - t0 < 30000000) { pump(k, NULL, 0, 50); int st; if (waitpid(k->pid, &st, WNOHANG | WNOWAIT) == k->pid) break; } char* p = strchr(k->words, c); if (p) *p = '.'; return p != NULL; }
static void finish(kid* k, const char* what) {
    int st = 0; uint64_t t0 = vh_now_us(); pid_t z; while ((z = waitpid(k->pid, &st, WNOHANG)) == 0 && vh_now_us() - t0 < 40000000) pump(k, NULL, 0, 20);
    if (!z) { vh_viol("stdio:hang", "stopping the transport (%s) did not end within 40 s", what); kill(k->pid, SIGKILL); waitpid(k->pid, &st, 0); }
    else if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_viol("stdio:crash", "the process serving standard input ended with status 0x%x (%s)", st, what);
    while (!k->eof && vh_now_us() - t0 < 60000000) pump(k, NULL, 0, 20); hear(k); if (k->in >= 0) close(k->in); close(k->out); close(k->ctl); close(k->rep); free(k->buf);
}
typedef struct { char* p; size_t n, cap; } bytes;
static void add(bytes* b, const void* p, size_t n) { if (b->n + n > b->cap) b->p = realloc(b->p, b->cap = (b->n + n) * 2); memcpy(b->p + b->n, p, n); b->n += n; }
static void add_frame(bytes* b, const void* p, size_t n) { uint32_t be = htonl((uint32_t)n); add(b, &be, 4); add(b, p, n); }
static char* message(vh_rng* r, size_t* n, int big) { int x = (int)vh_below(r, 100); size_t l = x < 70 ? 1 + vh_below(r, 300) : x < 90 ? 1 + vh_below(r, 9000) : x < 98 || !big ? 60000 + vh_below(r, 10000) : 200000 + vh_below(r, 800000); char* m = malloc(l); uint64_t h = vh_next(r); for (size_t i = 0; i < l; i++) m[i] = (char)(h + i * 13 + i / 251); m[0] = vh_chance(r, 20) ? 'n' : 'q'; *n = l; return m; }
static void serve(vh_rng* r) {
    plan p = { .nsend = vh_chance(r, 60) ? 0 : 1 + (int)vh_below(r, 4), .each = 5 + (int)vh_below(r, 40), .kind = (int)vh_below(r, 5), .pool = vh_chance(r, 40), .seed = vh_next(r) }; kid k = spawn(&p, child_serve, r);
    int rounds = p.kind == 3 ? 1 + (int)vh_below(r, 3) : 1; long idx = 0, frames = 0; long next[4] = { 0 }; uint64_t hist = p.seed;
    for (int q = 0; q < rounds && vh_viol_count() < 5; q++) {
        bytes b = { 0 }; int n = (int)vh_below(r, 60); char** want = calloc((size_t)n + 1, sizeof *want); long nw = 0, at = 0; for (int i = 0; i < n; i++) { size_t l; char* m = message(r, &l, 1); add_frame(&b, m, l); char* a = answer(m, l, idx++); if (a) want[nw++] = a; free(m); }
        if (p.kind == 1) { size_t l; char* m = message(r, &l, 0); bytes c = { 0 }; add_frame(&c, m, l); add(&b, c.p, vh_below(r, c.n)); free(c.p); free(m); }
        if (p.kind == 2) { static const uint32_t bad[] = { 0, 0xffffffffu, 0x7fffffffu, 0x01000000u, 0x00200000u }; uint32_t be = htonl(bad[vh_below(r, 5)]); add(&b, &be, 4); for (int i = 0; i < 30; i++) add(&b, "garbage", 7); }
        int style = (int)vh_below(r, 3); size_t off = 0; uint64_t t0 = vh_now_us(); int closed = 0;
        while (vh_viol_count() < 5) {
            if (off < b.n) { size_t x = b.n - off, l = style == 0 ? x : style == 1 ? 1 + vh_below(r, x < 4000 ? x : 4000) : 1 + vh_below(r, 7); if (l > x) l = x; if (style == 2 && b.n > 40000) style = 1; size_t w = pump(&k, b.p + off, l, 100); if (w) t0 = vh_now_us(); off += w; if (style && vh_chance(r, 3)) vh_usleep((long)vh_below(r, 500)); }
            else { if (!closed && (p.kind == 0 || p.kind == 1 || p.kind == 2)) { close(k.in); k.in = -1; closed = 1; } if (at == nw && (q || p.nsend == 0 || ({ int all = 1; for (int i = 0; i < p.nsend; i++) all &= next[i] == p.each; all; }))) break; pump(&k, NULL, 0, 50); }
            char* m; size_t l; int f; while ((f = frame(&k, &m, &l)) > 0) {
                frames++; t0 = vh_now_us();
                if (l && m[0] == 'S') { int t = -1, i = -1; sscanf(m, "S%d:%d:", &t, &i); if (t < 0 || t >= p.nsend || i != next[t]) vh_viol("stdio:order", "frame %d of thread %d came when %ld was next", i, t, t >= 0 && t < 4 ? next[t] : -1); else { size_t wl; char* w = extra(t, i, p.seed, &wl); if (wl != l || memcmp(w, m, l)) vh_viol("stdio:sent-bytes", "the frame a thread sent (%zu bytes) arrived changed (%zu bytes)", wl, l); free(w); next[t]++; hist = vh_hash(&t, sizeof t, hist); } }
                else if (at >= nw) vh_viol("stdio:unasked", "an answer nothing asked for: %.60s", m);
                else { if (strlen(want[at]) != l || memcmp(want[at], m, l)) vh_viol("stdio:answer", "answer %ld is \"%.50s\" (%zu bytes), expected \"%.50s\" (%zu bytes)", at, m, l, want[at], strlen(want[at])); at++; hist = vh_hash(m, l > 30 ? 30 : l, hist); }
                free(m); if (vh_viol_count() > 4) break;
            }
            if (f < 0) { vh_viol("stdio:frame", "what was written to standard output is no sequence of frames"); break; }
            if (vh_now_us() - t0 > 60000000 || k.eof) { vh_viol("stdio:lost", "%ld of %ld answers and %ld frames of senders arrived, then %s", at, nw, next[0] + next[1] + next[2] + next[3], k.eof ? "the output ended" : "nothing for 60 s"); break; }
        }
        for (long i = 0; i < nw; i++) free(want[i]); free(want); free(b.p); vh_evals(n); if (vh_viol_count()) break;
        if (p.kind == 3 && q + 1 < rounds) { order(&k, 's'); if (!word(&k, 's')) { vh_viol("stdio:stop", "stopping with the input open did not return"); break; } order(&k, 'r'); word(&k, 'r'); vh_count("restarts", 1); }
    }
    static const char* kinds[] = { "input ended", "input broke off", "illegal length", "input open, restarted", "input open" }; vh_count("frames read", frames); vh_count("messages written", idx); vh_count(kinds[p.kind], 1); if (p.nsend) vh_count("with other senders", 1);
    order(&k, 'q'); finish(&k, kinds[p.kind]); if (k.n && vh_viol_count() == 0) vh_viol("stdio:trailing", "%zu bytes beyond the frames on standard output", k.n);
    if (strchr(k.words, 'F')) vh_viol("stdio:send-failed", "a send failed although the other side was reading"); if (strchr(k.words, 'X')) vh_viol("stdio:stop-failed", "start or stop reported a failure"); vh_distinct(hist); vh_sample("%s: %ld messages, %ld frames, %d other senders", kinds[p.kind], idx, frames, p.nsend);
}
static void recv_(vh_rng* r) {
    plan p = { .seed = vh_next(r) }; kid k = spawn(&p, child_recv, r); long idx = 0; uint64_t hist = 0;
    for (int q = 0; q < 6 && vh_viol_count() == 0; q++) {
        int n = 1 + (int)vh_below(r, 12); bytes b = { 0 }; char* want[12]; for (int i = 0; i < n; i++) { size_t l; char* m = message(r, &l, 0); if (i && b.n + l > 50000) { free(m); n = i; break; } add_frame(&b, m, l); want[i] = answer(m, l, idx++); if (!want[i]) want[i] = strdup("-"); free(m); }
        /* small enough bursts are in the pipe when the child is told of them; it reads only then */
        int told = 0; size_t off = 0; uint64_t t0 = vh_now_us(); if (b.n > 60000) { order(&k, (char)(n | 128)); told = 1; }
        while (off < b.n && vh_now_us() - t0 < 60000000) { size_t w = pump(&k, b.p + off, b.n - off, 50); off += w; }
        if (!told) { order(&k, (char)n); } vh_count(told ? "bursts beyond the pipe" : "bursts in the pipe", 1);
        for (int i = 0; i < n;) { char* m; size_t l; int f = frame(&k, &m, &l); if (f < 0) { vh_viol("stdio:frame", "no frame"); break; } if (!f) { if (k.eof || vh_now_us() - t0 > 60000000) { vh_viol("stdio:lost", "%d of %d received messages came back", i, n); break; } pump(&k, NULL, 0, 50); continue; }
            if (strlen(want[i]) != l || memcmp(m, want[i], l)) { if (vh_viol_count() < 3) vh_viol("stdio:received", "message %d of a burst of %d was received as \"%.40s\", expected \"%.40s\"", i, n, m, want[i]); } hist = vh_hash(m, l > 40 ? 40 : l, hist); free(m); i++; }
        for (int i = 0; i < n; i++) free(want[i]); free(b.p); vh_evals(n);
    }
    order(&k, 'q'); finish(&k, "receive");
    if (strchr(k.words, 'E')) vh_viol("stdio:receive-error", "a receive failed although messages were there"); if (strchr(k.words, 'Z')) vh_viol("stdio:unterminated", "a received message has no terminating zero"); if (strchr(k.words, 'G')) vh_viol("stdio:invented", "a message nobody sent was received"); if (strchr(k.words, 'Y')) vh_viol("stdio:early", "a receive gave up before its time"); vh_distinct(hist);
}
static void client(vh_rng* r) {
    plan p = { .nsend = 1 + (int)vh_below(r, 6), .each = 3 + (int)vh_below(r, 25), .seed = vh_next(r) % 1000000 }; kid k = spawn(&p, child_client, r); long n = 0; uint64_t hist = p.seed, t0 = vh_now_us();
    typedef struct { char* t; size_t n; } wait; wait w[64]; int nw = 0; bytes b = { 0 }; size_t off = 0;
    while (vh_viol_count() == 0 && !strchr(k.words, 'd')) {
        off += pump(&k, b.p ? b.p + off : NULL, b.n - off ? 1 + vh_below(r, b.n - off) : 0, nw ? 1 : 20); char* m; size_t l; int f;
        while ((f = frame(&k, &m, &l)) > 0) {
            t0 = vh_now_us(); vj* q = vj_parse(m, l, NULL); vj* id = q && q->t == VJ_OBJ ? vj_get(q, "id") : NULL; vj* pa = q && q->t == VJ_OBJ ? vj_get(q, "params") : NULL; vj* kk = pa && pa->t == VJ_OBJ ? vj_get(pa, "k") : NULL; vj* ff = pa && pa->t == VJ_OBJ ? vj_get(pa, "f") : NULL;
            if (!id || !kk || !ff || ff->t != VJ_STR) { vh_viol("stdio:request", "a client's call was written as a frame that is no request: %zu bytes, \"%.60s\"", l, m); vj_free(q); free(m); break; }
            w[nw].t = malloc(200); w[nw].n = (size_t)sprintf(w[nw].t, "{\"jsonrpc\":\"2.0\",\"id\":%.0f,\"result\":{\"k\":%.0f,\"n\":%zu}}", id->n, kk->n, strlen(vj_str(pa, "f"))); nw++; n++; vj_free(q); free(m);
        }
        if (f < 0) vh_viol("stdio:frame", "a client wrote no sequence of frames");
        while (nw && (nw > 60 || vh_chance(r, 40))) { int i = (int)vh_below(r, (uint64_t)nw); add_frame(&b, w[i].t, w[i].n); hist = vh_hash(w[i].t, w[i].n, hist); free(w[i].t); w[i] = w[--nw]; }
        if (k.eof || vh_now_us() - t0 > 70000000) { vh_viol("stdio:client", "the client stopped calling after %ld calls", n); break; }
    }
    order(&k, 'q'); if (vh_chance(r, 50)) { close(k.in); k.in = -1; } finish(&k, "client");
    if (strchr(k.words, 'C')) vh_viol("stdio:call-failed", "an answered call failed"); if (strchr(k.words, 'W')) vh_viol("stdio:wrong-answer", "a call got an answer that is not its own");
    for (int i = 0; i < nw; i++) free(w[i].t); free(b.p); vh_evals(n); vh_count("calls answered", n); vh_distinct(hist);
}
int main(int c, char** v) {
    vh_init(c, v); vh_rng r; signal(SIGPIPE, SIG_IGN); mcp_log_set_level(getenv("VLOG") ? MCP_LOG_LEVEL_DEBUG : MCP_LOG_LEVEL_FATAL);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) { vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i); vh_note("case %ld", i); if (!strcmp(vh_mode, "recv")) recv_(&r); else if (!strcmp(vh_mode, "client")) client(&r); else serve(&r); }
    return vh_finish();
}
