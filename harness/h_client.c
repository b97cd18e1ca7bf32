// USE: vsrv
/* Client calls: every caller knows the answer made for its own request.
   own    many threads on one client over an in-process transport that answers at once, later, out of order, twice,
          with foreign ids, with garbage, with errors, never, or refuses to send
   crowd  hundreds of calls outstanding at once
   lost   the connection is reported lost while calls are outstanding
   api    the typed calls (tools, resources, templates, batches), contents compared
   life   clients created and destroyed, also by several threads at once */
#include "vsrv.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
#include <pthread.h>
#include <arpa/inet.h>
#include "transport_internal.h"
#include "mcp_client.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_thread_cache.h"
#include "mcp_memory_pool.h"

enum { NOW, LATER, TWICE, WRONGIDS, ERRNOW, ERRLATER, GARBAGE, NEVER, TOOLATE, REFUSED, REFUSED_AFTER, BOTH, PLANS };
static const char* plan_name[PLANS] = { "answered while sending", "answered later", "answered twice", "foreign ids first", "error while sending", "error later", "garbage first", "never answered", "answered after its timeout", "refused by the transport", "refused after being answered", "result and error at once" };
typedef struct item { struct item* next; char* text; size_t n; uint64_t due; int* done; } item;
typedef struct {
    pthread_mutex_t m; pthread_cond_t c; item* q; int stop, nthreads; pthread_t th[4]; uint64_t seed, order;   /* order: hash of the answers handed over later, in their order */
    mcp_transport_t* t; _Atomic(long) sent, delivered, held; _Atomic(int) down; int hold; _Atomic(int) stopped;
    char* (*api)(void* u, const char* method, const vj* params, long* delay_us); void* apiu;
} chan;
static void hand_over(chan* c, const char* s, size_t n) {
    char* b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; int e = 0;      /* as the transports hand it over: terminated, owned by the transport */
    char* r = c->t->message_callback(c->t->callback_user_data, b, n, &e); if (r) { vh_viol("client:callback-answer", "the client's message callback returned a text to send"); free(r); }
    memset(b, '#', n); free(b); atomic_fetch_add(&c->delivered, 1);
}
static void later(chan* c, const char* s, size_t n, long us) {
    item* it = malloc(sizeof *it); it->text = malloc(n + 1); memcpy(it->text, s, n); it->text[n] = 0; it->n = n; it->due = vh_now_us() + (uint64_t)us; it->done = NULL;
    pthread_mutex_lock(&c->m); it->next = c->q; c->q = it; pthread_cond_broadcast(&c->c); pthread_mutex_unlock(&c->m);
}
static void deliver(chan* c, const char* s, size_t n) {      /* returns once the client has it */
    int done = 0; item* it = malloc(sizeof *it); it->text = malloc(n + 1); memcpy(it->text, s, n); it->text[n] = 0; it->n = n; it->due = 0; it->done = &done;
    pthread_mutex_lock(&c->m); it->next = c->q; c->q = it; pthread_cond_broadcast(&c->c); while (!done) pthread_cond_wait(&c->c, &c->m); pthread_mutex_unlock(&c->m);
}
static void* responder(void* a) {
    chan* c = a; mcp_arena_init_current_thread(65536);   /* as the transports' receiving threads do */
    pthread_mutex_lock(&c->m);
    for (;;) {
        item **best = NULL; for (item** p = &c->q; *p; p = &(*p)->next) if (!best || (*p)->due < (*best)->due) best = p;
        uint64_t now = vh_now_us();
        if (!best) { if (c->stop) break; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec++; pthread_cond_timedwait(&c->c, &c->m, &ts); continue; }
        if (!c->stop && (*best)->due > now) {
            uint64_t d = (*best)->due - now; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += (long)(d % 1000000) * 1000; ts.tv_sec += (time_t)(d / 1000000); if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
            pthread_cond_timedwait(&c->c, &c->m, &ts); continue;
        }
        item* it = *best; *best = it->next; c->order = vh_hash(it->text, it->n, c->order); pthread_mutex_unlock(&c->m);
        hand_over(c, it->text, it->n);
        pthread_mutex_lock(&c->m); if (it->done) { *it->done = 1; pthread_cond_broadcast(&c->c); } free(it->text); free(it);
    }
    pthread_mutex_unlock(&c->m); mcp_arena_destroy_current_thread();
    return NULL;
}
/* the answer made for key k */
static void result_for(uint64_t k, sb* b) { vh_rng r; vh_rng_seed(&r, k * 77 + 5); sb_f(b, "{\"k\":%llu,\"v\":", (unsigned long long)k); vj* v = vj_gen(&r, 3); vj_write(v, NULL, b); vj_free(v); sb_s(b, "}"); }
static int errcode_for(uint64_t k) { static const int e[] = { -32601, -32602, -32603, -32000, -32001, -1, 7, 2147483647 }; return e[k % 8]; }
static void errmsg_for(uint64_t k, sb* b) { vh_rng r; vh_rng_seed(&r, k * 131 + 9); sb_f(b, "e%llu ", (unsigned long long)k); size_t n; char* s = vj_gen_str(&r, &n); sb_add(b, s, n); free(s); }
static void answer(sb* b, const char* id, uint64_t k, int err, vh_rng* r) {
    sb x = {0}; if (err) { sb m = {0}; errmsg_for(k, &m); sb_f(&x, "\"error\":{\"code\":%d,\"message\":", errcode_for(k)); vj_write_str(m.p, m.n, NULL, &x); sb_s(&x, "}"); sb_free(&m); if (err == 2) sb_s(&x, ",\"result\":{\"k\":0}"); } else { sb_s(&x, "\"result\":"); result_for(k, &x); }
    switch (vh_below(r, 3)) {
    case 0: sb_f(b, "{\"jsonrpc\":\"2.0\",\"id\":%s,%s}", id, x.p); break;
    case 1: sb_f(b, " { %s , \"id\" : %s, \"jsonrpc\":\"2.0\"}\n", x.p, id); break;
    default: sb_f(b, "{%s,\"extra\":[1,{\"id\":3}],\"jsonrpc\":\"2.0\",\"id\":%s}", x.p, id); break;
    }
    sb_free(&x);
}
static void poison(chan* c, vh_rng* r, const char* id) {
    sb b = {0}; char o[64];
    switch (vh_below(r, 9)) {
    case 0: snprintf(o, sizeof o, "%s.5", id); break;
    case 1: snprintf(o, sizeof o, "\"%s\"", id); break;
    case 2: snprintf(o, sizeof o, "-%s", id); break;
    case 3: snprintf(o, sizeof o, "1e300"); break;
    case 4: snprintf(o, sizeof o, "null"); break;
    case 5: snprintf(o, sizeof o, "[%s]", id); break;
    case 6: snprintf(o, sizeof o, "%llu", (unsigned long long)(9000000000ULL + vh_below(r, 1000000))); break;
    case 7: snprintf(o, sizeof o, "18446744073709551616"); break;
    default: snprintf(o, sizeof o, "0"); break;
    }
    if (vh_chance(r, 70)) sb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"result\":{\"k\":-1}}", o); else sb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"error\":{\"code\":-5,\"message\":\"poison\"}}", o);
    deliver(c, b.p, b.n); sb_free(&b);
}
static void garbage(chan* c, vh_rng* r, const char* id) {
    sb b = {0};
    switch (vh_below(r, 8)) {
    case 0: sb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s}", id); break;
    case 1: sb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"result\":{\"k\":-1}", id); break;
    case 2: sb_f(&b, "{\"jsonrpc\":\"2.0\",\"method\":\"note\",\"params\":{\"id\":%s}}", id); break;
    case 3: sb_f(&b, "[]"); break;
    case 4: sb_f(&b, "%s", id); break;
    case 5: { size_t n = 1 + vh_below(r, 200); for (size_t i = 0; i < n; i++) sb_c(&b, (char)(1 + vh_below(r, 255))); break; }
    case 6: for (int i = 0; i < 300; i++) sb_c(&b, '['); break;
    default: sb_f(&b, "null"); break;
    }
    deliver(c, b.p, b.n); sb_free(&b);
}
static int ch_send(chan* c, const char* msg, size_t n) {
    atomic_fetch_add(&c->sent, 1); if (atomic_load(&c->stopped)) vh_viol("client:send-after-stop", "a message was sent after the transport was stopped");
    vj* q = vj_parse(msg, n, NULL); vj* id = q ? vj_get(q, "id") : NULL; vj* p = q ? vj_get(q, "params") : NULL; const char* ver = q ? vj_str(q, "jsonrpc") : NULL; const char* method = q ? vj_str(q, "method") : NULL;
    if (!q || !id || id->t != VJ_NUM || !p || !ver || strcmp(ver, "2.0") || !method) { vh_viol("client:request", "not a request: %.200s", msg); vj_free(q); return -1; }
    char ids[32]; snprintf(ids, sizeof ids, "%.0f", id->n);
    if (atomic_load(&c->down)) { vj_free(q); return -1; }
    vh_rng r; int ret = 0;
    if (c->api) {
        long d = 0; char* res = c->api(c->apiu, method, p, &d); sb b = {0}; sb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s,%s}", ids, res); free(res);
        if (d < 0) deliver(c, b.p, b.n); else later(c, b.p, b.n, d);
        sb_free(&b); vj_free(q); return 0;
    }
    vj* kv = vj_get(p, "k"); vj* pv = vj_get(p, "plan"); vj* dv = vj_get(p, "d"); uint64_t k = kv ? (uint64_t)kv->n : 0; int plan = pv ? (int)pv->n : NOW; long d = dv ? (long)dv->n : 0;
    vh_rng_seed(&r, k ^ c->seed); sb b = {0};
    answer(&b, ids, k, plan == ERRNOW || plan == ERRLATER ? 1 : plan == BOTH ? 2 : 0, &r);
    if (c->hold) { later(c, b.p, b.n, 3600000000L); atomic_fetch_add(&c->held, 1); }
    else switch (plan) {
    case NOW: case ERRNOW: deliver(c, b.p, b.n); break;
    case BOTH: case LATER: case ERRLATER: later(c, b.p, b.n, d); break;
    case TWICE: if (vh_chance(&r, 50)) { deliver(c, b.p, b.n); sb e = {0}; answer(&e, ids, k + 1, 1, &r); later(c, e.p, e.n, d); sb_free(&e); } else { later(c, b.p, b.n, d); later(c, b.p, b.n, d); } break;
    case WRONGIDS: for (int i = 0; i < 4; i++) poison(c, &r, ids); later(c, b.p, b.n, d); break;
    case GARBAGE: for (int i = 0; i < 4; i++) garbage(c, &r, ids); later(c, b.p, b.n, d); break;
    case NEVER: break;
    case TOOLATE: later(c, b.p, b.n, d); break;
    case REFUSED: ret = -1; break;
    case REFUSED_AFTER: deliver(c, b.p, b.n); ret = -1; break;
    }
    sb_free(&b); vj_free(q); return ret;
}
static int t_init(mcp_transport_t* t) { (void)t; return 0; }
static int t_start(mcp_transport_t* t, mcp_transport_message_callback_t m, void* u, mcp_transport_error_callback_t e) { t->message_callback = m; t->callback_user_data = u; t->error_callback = e; return 0; }
static int t_stop(mcp_transport_t* t) {
    chan* c = t->transport_data; if (atomic_exchange(&c->stopped, 1)) return 0;
    pthread_mutex_lock(&c->m); c->stop = 1; pthread_cond_broadcast(&c->c); pthread_mutex_unlock(&c->m);
    for (int i = 0; i < c->nthreads; i++) pthread_join(c->th[i], NULL);
    return 0;
}
static void t_destroy(mcp_transport_t* t) { t_stop(t); free(t); }
static int t_send(mcp_transport_t* t, const void* d, size_t n) { const char* p = d; uint32_t be; if (n < 4) return -1; memcpy(&be, p, 4); if (ntohl(be) != n - 4) vh_viol("client:frame", "length prefix %u for %zu bytes", ntohl(be), n - 4); return ch_send(t->transport_data, p + 4, n - 4); }
static int t_sendv(mcp_transport_t* t, const mcp_buffer_t* b, size_t nb) { sb s = {0}; for (size_t i = 0; i < nb; i++) sb_add(&s, b[i].data, b[i].size); int r = t_send(t, s.p, s.n); sb_free(&s); return r; }
static int t_receive(mcp_transport_t* t, char** d, size_t* n, uint32_t ms) { (void)t; (void)d; (void)n; (void)ms; return -1; }
static mcp_client_t* open_client(chan* c, uint32_t timeout_ms, int threads, uint64_t seed) {
    memset(c, 0, sizeof *c); pthread_mutex_init(&c->m, NULL); pthread_cond_init(&c->c, NULL); c->seed = seed;
    mcp_transport_t* t = calloc(1, sizeof *t); t->type = MCP_TRANSPORT_TYPE_CLIENT; t->protocol_type = MCP_TRANSPORT_PROTOCOL_TCP; t->transport_data = c; c->t = t;
    t->client.init = t_init; t->client.destroy = t_destroy; t->client.start = t_start; t->client.stop = t_stop; t->client.send = t_send; t->client.sendv = t_sendv; t->client.receive = t_receive;
    mcp_client_config_t cfg = { .request_timeout_ms = timeout_ms };
    mcp_client_t* cl = mcp_client_create(&cfg, t); if (!cl) { vh_viol("client:create", "mcp_client_create failed"); return NULL; }
    c->nthreads = threads; for (int i = 0; i < threads; i++) pthread_create(&c->th[i], NULL, responder, c);
    return cl;
}
static void thread_done(void) { mcp_arena_destroy_current_thread(); if (mcp_thread_cache_is_initialized()) mcp_thread_cache_cleanup(); }

static _Atomic(uint64_t) next_k = 1;
/* one call and the comparison with what was made for it; r: the call's result code */
static void check_call(int plan, uint64_t k, int rc, char* res, int ec, char* em, uint64_t us, uint32_t timeout_ms) {
    /* an answer sent after the timeout may still be the call's own result when the caller was not scheduled in between */
    if (plan == TOOLATE && rc == 0 && us >= (uint64_t)timeout_ms * 1000) plan = NOW;
    if (plan == NEVER || plan == TOOLATE) {
        if (rc == 0 || res) vh_viol("client:answer-from-nowhere", "an unanswered call returned %d with %.60s", rc, res ? res : "no result");
        if (ec == MCP_ERROR_NONE) vh_viol("client:timeout-without-error", "a timed-out call returned %d without an error code", rc);
        if (us + 3000 < (uint64_t)timeout_ms * 1000) vh_viol("client:early-timeout", "an unanswered call with a timeout of %u ms failed after %llu us", timeout_ms, (unsigned long long)us);
        if (us > (uint64_t)timeout_ms * 1000 + 10000000) vh_viol("client:late-timeout", "an unanswered call with a timeout of %u ms took %llu us", timeout_ms, (unsigned long long)us);
    } else if (plan == REFUSED || plan == REFUSED_AFTER) {
        if (rc == 0) vh_viol("client:refused", "a call whose message could not be sent succeeded");
        if (us > 10000000) vh_viol("client:late-refusal", "a call whose message could not be sent took %llu us", (unsigned long long)us);
    } else if (plan == ERRNOW || plan == ERRLATER || plan == BOTH) {
        sb m = {0}; errmsg_for(k, &m); sb_c(&m, 0);
        if (res || ec != errcode_for(k) || !em || strcmp(em, m.p)) vh_viol("client:wrong-error", "call %llu (%s): expected error %d \"%.60s\", got status %d, code %d, \"%.60s\", result %.40s", (unsigned long long)k, plan_name[plan], errcode_for(k), m.p, rc, ec, em ? em : "(null)", res ? res : "(null)");
        sb_free(&m);
    } else {
        sb b = {0}; result_for(k, &b); vj* want = vj_parse(b.p, b.n, NULL); vj* got = res ? vj_parse(res, strlen(res), NULL) : NULL;
        if (rc != 0 || ec != MCP_ERROR_NONE || !got || !vj_eq(want, got)) vh_viol("client:wrong-answer", "call %llu (%s): status %d, code %d, message \"%.60s\", result %.120s, expected %.120s", (unsigned long long)k, plan_name[plan], rc, ec, em ? em : "(null)", res ? res : "(null)", b.p);
        vj_free(want); vj_free(got); sb_free(&b);
    }
    free(res); free(em);
}
typedef struct { mcp_client_t* cl; chan* c; uint64_t seed; int n, shortt; uint32_t timeout; long counts[PLANS]; uint64_t h; _Atomic(int)* go; uint64_t rawbase; int bad; uint64_t took; } wk;
static void one(wk* w, vh_rng* r, int plan) {
    uint64_t k = atomic_fetch_add(&next_k, 1); char p[160]; char* res = NULL; char* em = NULL; mcp_error_code_t ec = MCP_ERROR_NONE; long d = plan == TOOLATE ? (long)w->timeout * 1000 + 2000 + (long)vh_below(r, 30000) : (long)vh_below(r, vh_chance(r, 80) ? 300 : 5000);
    snprintf(p, sizeof p, "{\"k\":%llu,\"plan\":%d,\"d\":%ld}", (unsigned long long)k, plan, d);
    uint64_t t0 = vh_now_us(); int rc;
    if (w->rawbase && vh_chance(r, 50)) { int stray = plan == TWICE || plan == TOOLATE || plan == REFUSED_AFTER; uint64_t id = w->rawbase + (stray ? 10 + k : vh_below(r, 6)); rc = mcp_client_send_raw_request(w->cl, "do", p, id, &res, &ec, &em); }   /* its own range of ids, used again and again */
    else rc = mcp_client_send_request(w->cl, "do", p, &res, &ec, &em);
    check_call(plan, k, rc, res, ec, em, vh_now_us() - t0, w->timeout);
    w->counts[plan]++; w->h = vh_hash(&plan, sizeof plan, w->h);
}
static void* worker(void* a) {
    wk* w = a; vh_rng r; vh_rng_seed(&r, w->seed); while (!atomic_load(w->go)) sched_yield();
    for (int i = 0; i < w->n && vh_viol_count() < 5; i++) {
        int plan; if (w->shortt) { static const int ps[] = { NOW, NEVER, TOOLATE, ERRNOW, NOW, REFUSED, REFUSED_AFTER }; plan = ps[vh_below(&r, 7)]; }
        else { static const int ps[] = { NOW, LATER, LATER, LATER, TWICE, WRONGIDS, ERRNOW, ERRLATER, GARBAGE, REFUSED, REFUSED_AFTER, BOTH }; plan = ps[vh_below(&r, 12)]; }
        one(w, &r, plan);
    }
    thread_done(); return NULL;
}
static void run(vh_rng* r, int shortt, int n) {
    chan* c = malloc(sizeof *c); uint32_t to = shortt ? 20 + (uint32_t)vh_below(r, 100) : 60000; mcp_client_t* cl = open_client(c, to, 1 + (int)vh_below(r, 3), vh_next(r)); if (!cl) return;
    int nt = 1 + (int)vh_below(r, 12); pthread_t th[16]; wk ws[16]; memset(ws, 0, sizeof ws); _Atomic(int) go; atomic_init(&go, 0);
    for (int i = 0; i < nt; i++) { ws[i] = (wk){ .cl = cl, .c = c, .seed = vh_next(r), .n = n, .shortt = shortt, .timeout = to, .go = &go, .rawbase = vh_chance(r, 40) ? (1ULL << 40) * (uint64_t)(i + 1) : 0 }; pthread_create(&th[i], NULL, worker, &ws[i]); }
    atomic_store(&go, 1);
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); for (int k = 0; k < PLANS; k++) if (ws[i].counts[k]) { vh_count(plan_name[k], ws[i].counts[k]); vh_evals(ws[i].counts[k]); } vh_distinct(ws[i].h); }
    mcp_client_destroy(cl); vh_distinct(c->order); vh_sample("%d threads, %d calls each, timeout %u ms: %ld messages sent, %ld delivered, order %llx", nt, n, to, atomic_load(&c->sent), atomic_load(&c->delivered), (unsigned long long)c->order); vh_count("messages delivered to the client", atomic_load(&c->delivered)); free(c);
}
/* hundreds of outstanding calls, answered in random order */
static void* crowd_one(void* a) {
    wk* w = a; vh_rng r; vh_rng_seed(&r, w->seed); char p[120]; char* res = NULL; char* em = NULL; mcp_error_code_t ec = 0; uint64_t k = atomic_fetch_add(&next_k, 1); int rc;
    snprintf(p, sizeof p, "{\"k\":%llu,\"plan\":%d}", (unsigned long long)k, NOW); while (!atomic_load(w->go)) vh_usleep(500);
    if (w->rawbase) rc = mcp_client_send_raw_request(w->cl, "do", p, w->rawbase, &res, &ec, &em); else rc = mcp_client_send_request(w->cl, "do", p, &res, &ec, &em);
    if (w->shortt) { if (rc == 0 || res) vh_viol("client:lost-connection-answer", "a call outstanding when the connection was lost returned %d, %.60s", rc, res ? res : ""); if (ec == MCP_ERROR_NONE) vh_viol("client:lost-connection-error", "a call outstanding when the connection was lost returned %d without an error code", rc); free(res); free(em); w->took = vh_now_us(); }
    else check_call(NOW, k, rc, res, ec, em, 0, w->timeout);
    thread_done(); return NULL;
}
static void crowd(vh_rng* r, int nt, int lost) {
    chan* c = malloc(sizeof *c); mcp_client_t* cl = open_client(c, 120000, 1, vh_next(r)); if (!cl) return; c->hold = 1;
    pthread_t* th = calloc((size_t)nt, sizeof *th); wk* ws = calloc((size_t)nt, sizeof *ws); _Atomic(int) go; atomic_init(&go, 0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    int raw = (int)vh_below(r, 3); uint64_t base = 1000000 + vh_below(r, 1ULL << 45);
    for (int i = 0; i < nt; i++) { ws[i] = (wk){ .cl = cl, .c = c, .seed = vh_next(r), .timeout = 120000, .go = &go, .shortt = lost, .rawbase = raw == 0 || (raw == 1 && i % 2) ? 0 : base + (vh_chance(r, 50) ? (uint64_t)i : (uint64_t)i << 20) }; if (pthread_create(&th[i], &at, crowd_one, &ws[i])) { nt = i; break; } }
    atomic_store(&go, 1);
    uint64_t t0 = vh_now_us(); while (atomic_load(&c->held) < nt && vh_now_us() - t0 < 60000000) vh_usleep(2000);
    if (atomic_load(&c->held) < nt) vh_viol("client:not-sent", "%ld of %d simultaneous calls reached the transport", atomic_load(&c->held), nt);
    uint64_t lostat = 0;
    if (lost) { if (vh_chance(r, 50)) vh_usleep(20000); lostat = vh_now_us(); atomic_store(&c->down, 1); c->t->error_callback(c->t->callback_user_data, MCP_ERROR_TRANSPORT_ERROR); atomic_store(&c->down, 0); }
    else { pthread_mutex_lock(&c->m); for (item* p = c->q; p; p = p->next) p->due = vh_below(r, 1000000); pthread_cond_broadcast(&c->c); pthread_mutex_unlock(&c->m); }
    uint64_t worst = 0; for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); if (lost && ws[i].took > lostat && ws[i].took - lostat > worst) worst = ws[i].took - lostat; }
    if (lost && worst > 20000000) vh_viol("client:lost-connection-late", "a call outstanding when the connection was lost returned %llu us later", (unsigned long long)worst);
    vh_count(lost ? "outstanding calls ended by a lost connection" : "simultaneously outstanding calls answered", nt); vh_evals(nt);
    /* late answers for the failed ones, then normal work */
    if (lost) { pthread_mutex_lock(&c->m); for (item* p = c->q; p; p = p->next) p->due = 0; pthread_cond_broadcast(&c->c); pthread_mutex_unlock(&c->m); }
    c->hold = 0; wk w = { .cl = cl, .c = c, .timeout = 120000 }; for (int i = 0; i < 20 && vh_viol_count() < 5; i++) one(&w, r, (int)vh_below(r, 2) ? LATER : NOW);
    vh_evals(20); mcp_client_destroy(cl); vh_distinct(c->order); vh_sample("%d calls outstanding at once, %s, delivery order %llx", nt, lost ? "connection lost" : "answered in random order", (unsigned long long)c->order); free(c); free(th); free(ws); pthread_attr_destroy(&at);
}
/* typed calls */
typedef struct { uint64_t seed; int tools, res, tmpl; } store;
static void content_json(uint64_t h, sb* b) { vh_rng r; vh_rng_seed(&r, h); int n = (int)vh_below(&r, 4); sb_c(b, '['); for (int i = 0; i < n; i++) { size_t m; char* s = vj_gen_str(&r, &m); sb_f(b, "%s{\"type\":\"%s\"", i ? "," : "", vh_chance(&r, 60) ? "text" : vh_chance(&r, 50) ? "json" : "binary"); if (vh_chance(&r, 70)) sb_f(b, ",\"mimeType\":\"text/x-%llu\"", (unsigned long long)(vh_next(&r) % 1000)); sb_s(b, ",\"text\":"); vj_write_str(s, m, &r, b); sb_c(b, '}'); free(s); } sb_c(b, ']'); }
static void list_json(store* s, int kind, sb* b) {
    int n = kind == 0 ? s->tools : kind == 1 ? s->res : s->tmpl; vh_rng r; vh_rng_seed(&r, s->seed + (uint64_t)kind); sb_c(b, '[');
    for (int i = 0; i < n; i++) {
        size_t m; char* d = vj_gen_str(&r, &m); if (i) sb_c(b, ',');
        if (kind == 0) { sb_f(b, "{\"name\":\"tool-%d\",\"description\":", i); vj_write_str(d, m, NULL, b); int np = (int)vh_below(&r, 4); sb_s(b, ",\"inputSchema\":{\"type\":\"object\",\"properties\":{"); for (int j = 0; j < np; j++) sb_f(b, "%s\"p%d\":{\"type\":\"string\",\"description\":\"d%d\"}", j ? "," : "", j, j); sb_s(b, "},\"required\":["); if (np) sb_s(b, "\"p0\""); sb_s(b, "]}}"); }
        else { sb_f(b, "{\"%s\":\"u://%d\",\"name\":\"n%d\",\"mimeType\":\"m/%d\",\"description\":", kind == 1 ? "uri" : "uriTemplate", i, i, i); vj_write_str(d, m, NULL, b); sb_c(b, '}'); }
        free(d);
    }
    sb_c(b, ']');
}
static int failing(uint64_t h) { return h % 11 == 0; }
static char* serve(void* u, const char* method, const vj* p, long* delay) {
    store* s = u; sb b = {0}; uint64_t h = vs_canon(p) ^ s->seed; *delay = h % 3 == 0 ? -1 : (long)(h % 700);
    if (!strcmp(method, "list_tools")) { sb_s(&b, "\"result\":{\"tools\":"); list_json(s, 0, &b); sb_c(&b, '}'); }
    else if (!strcmp(method, "list_resources")) { sb_s(&b, "\"result\":{\"resources\":"); list_json(s, 1, &b); sb_c(&b, '}'); }
    else if (!strcmp(method, "list_resource_templates")) { sb_s(&b, "\"result\":{\"resourceTemplates\":"); list_json(s, 2, &b); sb_c(&b, '}'); }
    else if (failing(h)) sb_f(&b, "\"error\":{\"code\":-32011,\"message\":\"x\"}");
    else if (!strcmp(method, "read_resource")) { sb_s(&b, "\"result\":{\"contents\":"); content_json(h, &b); sb_c(&b, '}'); }
    else if (!strcmp(method, "call_tool")) { sb_f(&b, "\"result\":{\"isError\":%s,\"content\":", h & 1 ? "true" : "false"); content_json(h, &b); sb_c(&b, '}'); }
    else { sb_f(&b, "\"result\":{\"h\":\"%llx\"}", (unsigned long long)h); }
    sb_c(&b, 0); return b.p;
}
static const char* opt(const vj* o, const char* k) { const char* s = vj_str(o, k); return s ? s : ""; }
static int same(const char* a, const char* b) { return !strcmp(a ? a : "", b); }
static void check_content(const char* what, uint64_t h, int rc, mcp_content_item_t** it, size_t n) {
    if (failing(h)) { if (rc == 0) vh_viol("client:api-error", "%s answered with an error returned success", what); return; }
    sb b = {0}; content_json(h, &b); vj* a = vj_parse(b.p, b.n, NULL);
    if (rc != 0 || n != a->cnt) vh_viol("client:api-content", "%s: status %d, %zu items instead of %zu", what, rc, n, a->cnt);
    else for (size_t i = 0; i < n; i++) { vj* o = a->v[i]; const char* t = vj_str(o, "type"); int ty = !strcmp(t, "text") ? MCP_CONTENT_TYPE_TEXT : !strcmp(t, "json") ? MCP_CONTENT_TYPE_JSON : MCP_CONTENT_TYPE_BINARY; vj* x = vj_get(o, "text");
        if (it[i]->type != (mcp_content_type_t)ty || !same(it[i]->mime_type, opt(o, "mimeType")) || it[i]->data_size < x->sn || (x->sn && memcmp(it[i]->data, x->s, x->sn))) vh_viol("client:api-content", "%s: item %zu differs from what the server sent", what, i); }
    vj_free(a); sb_free(&b);
}
static void free_content(mcp_content_item_t** it, size_t n) { for (size_t i = 0; i < n; i++) mcp_content_item_free(it[i]); free(it); }
static uint64_t canon_text(const char* s) { vj* v = vj_parse(s, strlen(s), NULL); uint64_t h = v ? vs_canon(v) : 0; vj_free(v); return h; }
static void api_one(mcp_client_t* cl, store* s, vh_rng* r) {
    switch (vh_below(r, 7)) {
    case 0: { mcp_tool_t** t = NULL; size_t n = 0; int rc = mcp_client_list_tools(cl, &t, &n); sb b = {0}; list_json(s, 0, &b); vj* a = vj_parse(b.p, b.n, NULL);
        if (rc || n != a->cnt) vh_viol("client:api-tools", "list_tools: status %d, %zu tools instead of %zu", rc, n, a->cnt);
        else for (size_t i = 0; i < n; i++) { vj* pr = vj_get(vj_get(a->v[i], "inputSchema"), "properties"); if (!same(t[i]->name, opt(a->v[i], "name")) || !same(t[i]->description, opt(a->v[i], "description")) || t[i]->input_schema_count != pr->cnt) vh_viol("client:api-tools", "tool %zu differs from what the server sent", i);
            else for (size_t j = 0; j < pr->cnt; j++) { char nm[8]; int seen = 0; snprintf(nm, sizeof nm, "p%zu", j); for (size_t k = 0; k < pr->cnt; k++) if (!strcmp(t[i]->input_schema[k].name, nm)) { seen++; if (t[i]->input_schema[k].required != (j == 0)) seen = 9; } if (seen != 1) vh_viol("client:api-tools", "parameter %s of tool %zu differs from what the server sent", nm, i); } }
        for (size_t i = 0; i < n; i++) mcp_tool_free(t[i]); free(t); vj_free(a); sb_free(&b); break; }
    case 1: { mcp_resource_t** t = NULL; size_t n = 0; int rc = mcp_client_list_resources(cl, &t, &n); sb b = {0}; list_json(s, 1, &b); vj* a = vj_parse(b.p, b.n, NULL);
        if (rc || n != a->cnt) vh_viol("client:api-resources", "list_resources: status %d, %zu instead of %zu", rc, n, a->cnt);
        else for (size_t i = 0; i < n; i++) if (!same(t[i]->uri, opt(a->v[i], "uri")) || !same(t[i]->name, opt(a->v[i], "name")) || !same(t[i]->mime_type, opt(a->v[i], "mimeType")) || !same(t[i]->description, opt(a->v[i], "description"))) vh_viol("client:api-resources", "resource %zu differs from what the server sent", i);
        for (size_t i = 0; i < n; i++) mcp_resource_free(t[i]); free(t); vj_free(a); sb_free(&b); break; }
    case 2: { mcp_resource_template_t** t = NULL; size_t n = 0; int rc = mcp_client_list_resource_templates(cl, &t, &n); sb b = {0}; list_json(s, 2, &b); vj* a = vj_parse(b.p, b.n, NULL);
        if (rc || n != a->cnt) vh_viol("client:api-templates", "list_resource_templates: status %d, %zu instead of %zu", rc, n, a->cnt);
        else for (size_t i = 0; i < n; i++) if (!same(t[i]->uri_template, opt(a->v[i], "uriTemplate")) || !same(t[i]->name, opt(a->v[i], "name")) || !same(t[i]->description, opt(a->v[i], "description"))) vh_viol("client:api-templates", "template %zu differs from what the server sent", i);
        for (size_t i = 0; i < n; i++) mcp_resource_template_free(t[i]); free(t); vj_free(a); sb_free(&b); break; }
    case 3: { char uri[64], p[100]; snprintf(uri, sizeof uri, "res://x/%llu", (unsigned long long)(vh_next(r) % 100000)); snprintf(p, sizeof p, "{\"uri\":\"%s\"}", uri); mcp_content_item_t** c = NULL; size_t n = 0; int rc = mcp_client_read_resource(cl, uri, &c, &n); check_content("read_resource", canon_text(p) ^ s->seed, rc, c, n); free_content(c, n); break; }
    case 4: { char name[40], args[80], p[160]; snprintf(name, sizeof name, "tool-%d", (int)vh_below(r, 20)); snprintf(args, sizeof args, "{\"a\":%llu,\"s\":\"\\u00e9\"}", (unsigned long long)(vh_next(r) % 1000000)); snprintf(p, sizeof p, "{\"name\":\"%s\",\"arguments\":%s}", name, args); mcp_content_item_t** c = NULL; size_t n = 0; bool e = false; int rc = mcp_client_call_tool(cl, name, args, &c, &n, &e); uint64_t h = canon_text(p) ^ s->seed;
        check_content("call_tool", h, rc, c, n); if (rc == 0 && !failing(h) && e != (bool)(h & 1)) vh_viol("client:api-iserror", "call_tool: isError differs from what the server sent"); free_content(c, n); break; }
    case 5: { mcp_batch_request_t q[20]; char ps[20][64]; size_t n = 1 + vh_below(r, 20), rn = 0; mcp_batch_response_t* rs = NULL; for (size_t i = 0; i < n; i++) { snprintf(ps[i], sizeof ps[i], "{\"b\":%llu}", (unsigned long long)(vh_next(r) % 1000000)); q[i] = (mcp_batch_request_t){ .method = "do", .params = ps[i], .id = vh_next(r) % 1000 }; }
        int rc = vh_chance(r, 50) ? mcp_client_send_batch_request(cl, q, n, &rs, &rn) : mcp_client_send_batch_request_optimized(cl, q, n, &rs, &rn);
        if (rc || rn != n) vh_viol("client:batch", "batch of %zu: status %d, %zu responses", n, rc, rn);
        else for (size_t i = 0; i < n; i++) { uint64_t h = canon_text(ps[i]) ^ s->seed; char x[40]; snprintf(x, sizeof x, "%llx", (unsigned long long)h); vj* g = rs[i].result ? vj_parse(rs[i].result, strlen(rs[i].result), NULL) : NULL;
            if (rs[i].id != q[i].id || (failing(h) ? rs[i].error_code != -32011 || rs[i].result : rs[i].error_code != 0 || !g || !same(vj_str(g, "h"), x))) vh_viol("client:batch", "response %zu of %zu is not the one for request %zu", i, n, i); vj_free(g); }
        if (rs) mcp_client_free_batch_responses(rs, rn); break; }
    default: { const char* ps[10]; char buf[10][40]; size_t n = 1 + vh_below(r, 10); for (size_t i = 0; i < n; i++) { snprintf(buf[i], sizeof buf[i], "{\"id\":\"%llu\"}", (unsigned long long)(vh_next(r) % 100000)); ps[i] = buf[i]; }
        mcp_content_item_t*** ca = NULL; size_t* na = NULL; int* ra = NULL; int ok = 0, rc = mcp_client_read_resources_with_template_batch(cl, "res://t/{id}/v", ps, n, &ca, &na, &ra);
        if (!ca || !na || !ra) { vh_viol("client:template-batch", "no arrays returned"); break; }
        for (size_t i = 0; i < n; i++) { char p[100]; vj* v = vj_parse(ps[i], strlen(ps[i]), NULL); snprintf(p, sizeof p, "{\"uri\":\"res://t/%s/v\"}", vj_str(v, "id")); vj_free(v); check_content("templated read", canon_text(p) ^ s->seed, ra[i], ca[i], na[i]); if (ra[i] == 0) ok++; }
        if (rc != ok) vh_viol("client:template-batch", "returned %d, %d succeeded", rc, ok);
        mcp_client_free_batch_resources(ca, na, ra, n); break; }
    }
}
typedef struct { mcp_client_t* cl; store* s; uint64_t seed; int n; } aw;
static void* api_worker(void* a) { aw* w = a; vh_rng r; vh_rng_seed(&r, w->seed); for (int i = 0; i < w->n && vh_viol_count() < 5; i++) api_one(w->cl, w->s, &r); thread_done(); return NULL; }
static void api(vh_rng* r, int n) {
    chan* c = malloc(sizeof *c); mcp_client_t* cl = open_client(c, 60000, 1 + (int)vh_below(r, 3), vh_next(r)); if (!cl) return;
    store s = { vh_next(r), (int)vh_below(r, 30), (int)vh_below(r, 30), (int)vh_below(r, 30) }; c->apiu = &s; c->api = serve;
    int nt = 1 + (int)vh_below(r, 6); pthread_t th[8]; aw ws[8]; for (int i = 0; i < nt; i++) { ws[i] = (aw){ cl, &s, vh_next(r), n }; pthread_create(&th[i], NULL, api_worker, &ws[i]); }
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); vh_evals(n); }
    vh_count("typed calls compared", (long)nt * n); mcp_client_destroy(cl); vh_distinct(c->order); vh_sample("%d threads, %d typed calls each, delivery order %llx", nt, n, (unsigned long long)c->order); free(c);
}
static void* life(void* a) { vh_rng r; vh_rng_seed(&r, (uint64_t)(uintptr_t)a); for (int i = 0; i < 3; i++) { chan* c = malloc(sizeof *c); mcp_client_t* cl = open_client(c, 60000, 1, vh_next(&r)); if (!cl) break; wk w = { .cl = cl, .c = c, .timeout = 60000 }; for (int k = 0; k < 5; k++) one(&w, &r, LATER); mcp_client_destroy(cl); free(c); } thread_done(); return NULL; }
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(getenv("VLOG") ? MCP_LOG_LEVEL_DEBUG : MCP_LOG_LEVEL_FATAL); vh_rng r; vh_rng_seed(&r, vh_seed);
    if (!strcmp(vh_mode, "own")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) run(&r, 0, 60);
    else if (!strcmp(vh_mode, "timeout")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) run(&r, 1, 12);
    else if (!strcmp(vh_mode, "crowd")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) crowd(&r, i == 0 ? 1200 : 2 + (int)vh_below(&r, 300), 0);
    else if (!strcmp(vh_mode, "lost")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) crowd(&r, 1 + (int)vh_below(&r, 60), 1);
    else if (!strcmp(vh_mode, "api")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) api(&r, 40);
    else if (!strcmp(vh_mode, "life")) for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) { int nt = 1 + (int)vh_below(&r, 5); pthread_t th[8]; for (int k = 0; k < nt; k++) pthread_create(&th[k], NULL, life, (void*)(uintptr_t)vh_next(&r)); for (int k = 0; k < nt; k++) pthread_join(th[k], NULL); vh_evals(nt * 3); vh_count("client lives", nt * 3); }
    else return 2;
    thread_done();
    return vh_finish();
}
