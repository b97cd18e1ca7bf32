#include "vsrv.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdatomic.h>
#include "transport_internal.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_log.h"
const char* const vs_kind_name[VS_KINDS] = { "ping", "call_tool", "call_tool with bad parameters", "read_resource", "read_resource with bad parameters", "list_tools", "list_resources", "list_resource_templates", "unknown method", "notification", "response", "invalid element", "get_performance_metrics" };
static vs_world* g_by_srv[64]; static mcp_server_t* g_srv[64];
static vj* mk(int t) { vj* v = calloc(1, sizeof *v); v->t = t; return v; }
static vj* S(const char* s) { vj* v = mk(VJ_STR); v->s = strdup(s); v->sn = strlen(s); return v; }
static vj* N(double d) { vj* v = mk(VJ_NUM); v->n = d; return v; }
static void put(vj* o, const char* k, vj* v) { o->v = realloc(o->v, (o->cnt + 1) * sizeof *o->v); if (o->t == VJ_OBJ) { o->k = realloc(o->k, (o->cnt + 1) * sizeof *o->k); o->k[o->cnt] = strdup(k); } o->v[o->cnt++] = v; }
static vj* copy(const vj* v) { sb b = {0}; vj_write(v, NULL, &b); vj* c = vj_parse(b.p, b.n, NULL); sb_free(&b); return c; }
static void shuffle(vj* o, vh_rng* r) { for (size_t i = o->cnt; i > 1; i--) { size_t j = vh_below(r, i); char* k = o->k[i - 1]; o->k[i - 1] = o->k[j]; o->k[j] = k; vj* v = o->v[i - 1]; o->v[i - 1] = o->v[j]; o->v[j] = v; } }

uint64_t vs_canon(const vj* v) {
    uint64_t h = (uint64_t)v->t * 0x9e3779b97f4a7c15ULL + 7;
    switch (v->t) {
    case VJ_BOOL: return vh_hash(&v->b, sizeof v->b, h);
    case VJ_NUM: { double d = v->n == 0 ? 0 : v->n; return vh_hash(&d, 8, h); }
    case VJ_STR: return vh_hash(v->s, v->sn, h);
    case VJ_ARR: for (size_t i = 0; i < v->cnt; i++) { uint64_t x = vs_canon(v->v[i]); h = vh_hash(&x, 8, h); } return h;
    case VJ_OBJ: { uint64_t s = 0; for (size_t i = 0; i < v->cnt; i++) if (vj_get(v, v->k[i]) == v->v[i]) s += vh_hash(v->k[i], strlen(v->k[i]), vs_canon(v->v[i]) | 1); return vh_hash(&s, 8, h); }
    }
    return h;
}
static const char* mimes[] = { "text/plain", "application/json", "text/x-\"odd\"", "a/b;c=\xc3\xa9", NULL };
void vs_outcome(vs_world* w, uint64_t h, int resource, vs_out* o) {
    vh_rng r; vh_rng_seed(&r, vh_hash(&h, 8, w->seed | 1));
    memset(o, 0, sizeof *o);
    if (vh_chance(&r, resource ? 8 : 15)) {
        static const int st[] = { MCP_ERROR_INTERNAL_ERROR, MCP_ERROR_INVALID_PARAMS, MCP_ERROR_TOOL_NOT_FOUND, MCP_ERROR_FORBIDDEN, -32050 };
        o->status = st[vh_below(&r, 5)];
        if (resource && o->status == MCP_ERROR_TOOL_NOT_FOUND) o->status = -32051;
        if (vh_chance(&r, 70)) o->emsg = vj_gen_str(&r, NULL);
        return;
    }
    o->is_error = vh_chance(&r, 20);
    o->n = vh_chance(&r, 4) ? 1 + (int)vh_below(&r, 47) : resource ? 1 + (int)vh_below(&r, 4) : (int)vh_below(&r, 5);
    for (int i = 0; i < o->n; i++) {
        o->it[i].type = vh_chance(&r, 65) ? MCP_CONTENT_TYPE_TEXT : vh_chance(&r, 80) ? MCP_CONTENT_TYPE_JSON : MCP_CONTENT_TYPE_BINARY;
        const char* m = mimes[vh_below(&r, 5)];
        if (resource && !m) m = "text/plain";
        o->it[i].mime = m ? strdup(m) : NULL;
        if (vh_chance(&r, 4)) { size_t n = vh_below(&r, 9000); o->it[i].text = malloc(n + 1); for (size_t k = 0; k < n; k++) o->it[i].text[k] = (char)(32 + vh_below(&r, 95)); o->it[i].text[n] = 0; o->it[i].n = n; }
        else o->it[i].text = vj_gen_str(&r, &o->it[i].n);
    }
}
void vs_out_free(vs_out* o) { for (int i = 0; i < o->n; i++) { free(o->it[i].mime); free(o->it[i].text); } free(o->emsg); memset(o, 0, sizeof *o); }
/* resources come in groups whose names nearly coincide: same start, other case, a query, a fragment, a trailing slash */
void vs_uri(vs_world* w, int i, char* b, size_t n) {
    (void)w; int g = i / 8;
    static const char* const form[8] = { "res://host/%d", "res://host/%d?q=1", "res://odd path/%%20\"q\"\\%d", NULL, "res://host/%d#f", "res://host/%d/", "res://Host/%d", NULL };
    if (i % 4 == 3) { snprintf(b, n, i % 8 == 3 ? "tpl%d://item/%d/view" : "tpl%d://item/%d%s/view", (i / 8) % 3, i % 8 == 3 ? i : i - 4, "?v"); return; }
    if (g == 6 && i % 8 != 2) { memset(b, 'l', 90); snprintf(b, 7, "res://"); b[6] = 'l'; snprintf(b + 90, n - 90, "%d", i % 8); return; }
    snprintf(b, n, form[i % 8], g);
}
static int uri_index(const char* u) {
    for (int k = 0; k < VS_URIS; k++) { char b[128]; vs_uri(NULL, k, b, sizeof b); if (!strcmp(b, u)) return k; }
    return -1;
}
static void fill(const vs_out* o, mcp_content_item_t*** content, size_t* count, const char* prefix) {
    *content = malloc(sizeof(mcp_content_item_t*) * (size_t)(o->n ? o->n : 1));
    for (int i = 0; i < o->n; i++) {
        sb b = {0}; if (prefix && i == 0) sb_s(&b, prefix); sb_add(&b, o->it[i].text, o->it[i].n);
        /* with and without the terminator counted in */
        (*content)[i] = mcp_content_item_create(o->it[i].type, o->it[i].mime, b.p, b.n + (o->it[i].n % 2));
        sb_free(&b);
    }
    *count = (size_t)o->n;
}
static vs_world* world_of(mcp_server_t* s) { for (int i = 0; i < 64; i++) if (__atomic_load_n(&g_srv[i], __ATOMIC_RELAXED) == s) return __atomic_load_n(&g_by_srv[i], __ATOMIC_RELAXED); return NULL; }
static void linger(vs_world* w, uint64_t h) { if (w->slow_us) vh_usleep((long)(h % (uint64_t)w->slow_us)); }
static mcp_error_code_t tool(mcp_server_t* s, const char* name, const mcp_json_t* params, void* ud, mcp_content_item_t*** content, size_t* count, bool* is_error, char** emsg) {
    vs_world* w = ud;
    atomic_fetch_add(&w->in_handler, 1);
    atomic_fetch_add_explicit(&w->tool_calls, 1, memory_order_relaxed);
    if (world_of(s) != w) vh_viol("handler:wrong-server", "tool handler called with another server's handle");
    uint64_t h = vh_hash(name, strlen(name), 11);
    if (params) {
        char* t = mcp_json_stringify(params); vj* v = t ? vj_parse(t, strlen(t), NULL) : NULL;
        if (!v) atomic_fetch_add(&w->odd_calls, 1);
        else {
            uint64_t c = vs_canon(v); h = vh_hash(&c, 8, h);
            vj* n = vj_get(v, "nonce"); if (n && n->t == VJ_NUM && n->n >= 0 && n->n < VS_NONCES && w->nonce) atomic_fetch_add_explicit(&w->nonce[(long)n->n], 1, memory_order_relaxed);
            vj_free(v);
        }
        free(t);
    }
    linger(w, h);
    vs_out o; vs_outcome(w, h, 0, &o);
    *is_error = o.is_error;
    if (o.emsg) *emsg = strdup(o.emsg);
    if (o.status == 0 && (o.n || h % 2)) fill(&o, content, count, NULL);
    int st = o.status; vs_out_free(&o);
    atomic_fetch_sub(&w->in_handler, 1);
    return (mcp_error_code_t)st;
}
static uint64_t res_seed(int k, int v) { return ((uint64_t)k << 32 | (uint32_t)v) * 2 + 1; }
static mcp_error_code_t resource(mcp_server_t* s, const char* uri, void* ud, mcp_content_item_t*** content, size_t* count, char** emsg) {
    vs_world* w = ud;
    atomic_fetch_add(&w->in_handler, 1);
    atomic_fetch_add_explicit(&w->res_calls, 1, memory_order_relaxed);
    if (world_of(s) != w) vh_viol("handler:wrong-server", "resource handler called with another server's handle");
    int k = uri_index(uri), st = MCP_ERROR_RESOURCE_NOT_FOUND;
    if (k >= 0) {
        int v = atomic_fetch_add(&w->calls_res[k], 1) + 1;
        linger(w, (uint64_t)(k * 31 + v));
        vs_out o; vs_outcome(w, res_seed(k, v), 1, &o);
        st = o.status;
        if (o.emsg) *emsg = strdup(o.emsg);
        char p[32]; snprintf(p, sizeof p, "v%d:", v);
        if (!st) { fill(&o, content, count, p); atomic_store(&w->version[k], v); }
        vs_out_free(&o);
    } else if (uri[0] && strlen(uri) % 2) *emsg = strdup("no such thing");
    atomic_fetch_sub(&w->in_handler, 1);
    return (mcp_error_code_t)st;
}
static int t_ok(mcp_transport_t* t) { (void)t; return 0; }
static void t_destroy(mcp_transport_t* t) { (void)t; }
static int t_start(mcp_transport_t* t, mcp_transport_message_callback_t cb, void* ud, mcp_transport_error_callback_t e) { (void)t; (void)cb; (void)ud; (void)e; return 0; }
void vs_tool_name(int i, char* b) { int k = i % 3 == 2 ? i - 1 : i; sprintf(b, i % 3 == 1 ? "tool_%d" : i % 6 == 2 ? "Tool_%d" : i % 3 == 2 ? "tool_%d " : "t\xc3\xb6\xc3\xb6l \"%d\"", k); }
static int nparams(int i) { return i % 9 == 7 ? 4 + i % 30 : i % 4; }
static const char* param_desc(int k) { return k % 3 == 2 ? NULL : k ? "d" : "about \"it\""; }
static const char* mime_of(int i) { return i % 5 == 4 ? NULL : i % 5 == 3 ? "application/json" : "text/plain"; }
vs_world* vs_open(vh_rng* r, const vs_cfg* c, mcp_transport_t* tr) {
    vs_world* w = calloc(1, sizeof *w);
    w->seed = vh_next(r); w->key = c->key; w->tool_cap = !c->no_tools; w->res_cap = !c->no_res; w->slow_us = c->slow_us;
    w->nonce = calloc(VS_NONCES, 1);
    mcp_server_config_t cf; memset(&cf, 0, sizeof cf);
    cf.name = "verif"; cf.version = "1"; cf.description = "x"; cf.api_key = c->key;
    cf.thread_pool_size = (size_t)(c->thread_pool ? c->thread_pool : 2); cf.task_queue_size = 64; cf.cache_capacity = (size_t)(c->cache ? c->cache : 16); cf.cache_default_ttl_seconds = 300; cf.max_message_size = c->max_message; w->limit = c->max_message;
    cf.rate_limit_window_seconds = c->rl_window; cf.rate_limit_max_requests = c->rl_max; cf.tokens_per_second = c->tokens_per_second; cf.max_tokens = c->max_tokens; cf.use_advanced_rate_limiter = c->adv_limit; cf.enable_token_bucket = c->bucket;
    cf.graceful_shutdown_timeout_ms = (uint32_t)c->grace_ms;
    char* pw[8]; char pb[8][128];
    if (c->prewarm) { for (int i = 0; i < c->prewarm && i < 8; i++) { vs_uri(w, i * 4, pb[i], sizeof pb[i]); pw[i] = pb[i]; } cf.prewarm_resource_uris = pw; cf.prewarm_count = (size_t)(c->prewarm < 8 ? c->prewarm : 8); }
    mcp_server_capabilities_t cap = { .resources_supported = w->res_cap, .tools_supported = w->tool_cap };
    w->srv = mcp_server_create(&cf, &cap);
    if (!w->srv) { vh_viol("server:create", "server could not be created"); exit(vh_finish()); }
    for (int i = 0; i < 64; i++) { mcp_server_t* none = NULL; if (__atomic_compare_exchange_n(&g_srv[i], &none, w->srv, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { __atomic_store_n(&g_by_srv[i], w, __ATOMIC_SEQ_CST); break; } }
    mcp_server_set_tool_handler(w->srv, tool, w); mcp_server_set_resource_handler(w->srv, resource, w);
    w->tools = (int)vh_below(r, 40); w->res = (int)vh_below(r, 40); w->tmpl = (int)vh_below(r, 12);
    for (int i = 0; i < w->tools; i++) {
        char n[64]; vs_tool_name(i, n); mcp_tool_t* t = mcp_tool_create(n, i % 2 ? "does \"things\"\n" : NULL);
        for (int k = 0; k < nparams(i); k++) { char p[32]; sprintf(p, "p%d", k); mcp_tool_add_param(t, p, k % 2 ? "string" : "number", param_desc(k), k != 1); }
        if (mcp_server_add_tool(w->srv, t) != (w->tool_cap ? 0 : -1)) vh_viol("server:add-tool", "adding a tool");
        mcp_tool_free(t);
    }
    for (int i = 0; i < w->res; i++) { char u[128], n[32]; vs_uri(w, i, u, sizeof u); sprintf(n, "n%d", i); mcp_resource_t* x = mcp_resource_create(u, n, mime_of(i), i % 2 ? "d\\" : NULL); if (mcp_server_add_resource(w->srv, x) != (w->res_cap ? 0 : -1)) vh_viol("server:add-resource", "adding a resource"); mcp_resource_free(x); }
    for (int i = 0; i < w->tmpl; i++) { char u[128]; sprintf(u, "tmpl%d://{a}/{b}", i); mcp_resource_template_t* x = mcp_resource_template_create(u, "n", mime_of(i), i % 2 ? "d" : NULL); if (mcp_server_add_resource_template(w->srv, x) != (w->res_cap ? 0 : -1)) vh_viol("server:add-template", "adding a template"); mcp_resource_template_free(x); }
    for (int i = 0; i < 3; i++) { char u[64]; sprintf(u, "tpl%d://item/{id}/view", i); if (mcp_server_register_template_handler(w->srv, u, resource, w) != 0) vh_viol("server:add-route", "registering a template handler"); }
    if (!tr) {
        w->tr = calloc(1, sizeof(struct mcp_transport));
        w->tr->type = MCP_TRANSPORT_TYPE_SERVER; w->tr->server.start = t_start; w->tr->server.stop = t_ok; w->tr->server.destroy = t_destroy; w->tr->server.init = t_ok;
        tr = w->tr;
    }
    if (mcp_server_start(w->srv, tr) != 0) { vh_viol("server:start", "server did not start"); }
    return w;
}
void vs_close(vs_world* w) {
    if (!w) return;
    mcp_server_destroy(w->srv);
    for (int i = 0; i < 64; i++) if (g_srv[i] == w->srv) { __atomic_store_n(&g_by_srv[i], NULL, __ATOMIC_SEQ_CST); __atomic_store_n(&g_srv[i], NULL, __ATOMIC_SEQ_CST); break; }
    free(w->tr); free((void*)w->nonce); free(w);
}
char* vs_send(vs_world* w, const void* p, size_t n, int* err) { int e = 0; char* r = w->tr->message_callback(w->tr->callback_user_data, p, n, &e); if (err) *err = e; return r; }
void vs_thread_done(void) { mcp_arena_destroy_current_thread(); }

static _Atomic(long) next_nonce;
static vj* bad_key(vh_rng* r, const char* key) {
    size_t n = strlen(key); char b[4096];
    snprintf(b, sizeof b, "%s", key);
    switch (vh_below(r, 17)) {
    case 0: return S(""); case 1: b[vh_below(r, n)] = 0; return S(b);                   /* prefix */
    case 2: snprintf(b, sizeof b, "%s%c", key, (char)('0' + vh_below(r, 70))); return S(b);
    case 3: return S(b + 1); case 4: { size_t i = vh_below(r, n); b[i] ^= 0x20; return S(b); }
    case 5: { vj* v = mk(VJ_ARR); put(v, NULL, S(key)); return v; }
    case 6: { vj* v = mk(VJ_OBJ); put(v, "apiKey", S(key)); return v; }
    case 7: return N(vh_below(r, 2) ? 0 : strtod(key, NULL)); case 8: { vj* v = mk(VJ_BOOL); v->b = 1; return v; }
    case 9: b[n - 1]++; return S(b); case 10: return mk(VJ_NULL);
    case 11: snprintf(b, sizeof b, "%s%.*s", key, (int)(1 + vh_below(r, 3)), vh_chance(r, 60) ? "   " : vh_chance(r, 50) ? "\t\t\t" : "\r\n\n"); return S(b);
    case 12: snprintf(b, sizeof b, "%.*s%s", (int)(1 + vh_below(r, 3)), vh_chance(r, 60) ? "   " : "\t\n ", key); return S(b);
    case 13: snprintf(b, sizeof b, "%s%s", key, key); return S(b);
    case 14: { size_t i = vh_below(r, n), k = vh_below(r, n); char x = b[i]; b[i] = b[k]; b[k] = x; if (!strcmp(b, key)) b[0] ^= 1; return S(b); }
    case 15: snprintf(b, sizeof b, "%s%s", vh_chance(r, 50) ? "Bearer " : "*", vh_chance(r, 50) ? key : ""); return S(b);
    default: for (size_t i = 0; i < n; i++) b[i] ^= 1; return S(b);
    }
}
/* puts a key into params (an object) or leaves it out; returns whether the message may be served */
static int add_key(vs_world* w, vh_rng* r, vj* params, vj* msg) {
    if (!w->key) { if (vh_chance(r, 3)) put(params, "apiKey", S("whatever")); return 1; }
    switch (vh_below(r, 6)) {
    case 0: return 0;
    case 1: { vj* k = bad_key(r, w->key); put(params, "apiKey", k); return 0; }
    case 2: put(vh_chance(r, 50) || params->cnt == 0 || params->v[0]->t != VJ_OBJ ? msg : params->v[0], "apiKey", S(w->key)); return 0;   /* in the wrong place */
    default: put(params, "apiKey", S(w->key)); return 1;
    }
}
static void elem(vs_world* w, vh_rng* r, vs_elem* e, vj** out) {
    memset(e, 0, sizeof *e); e->nonce = -1; e->auth = 1; e->uri = -1;
    static const int weight[VS_KINDS] = { 8, 26, 6, 22, 5, 3, 3, 3, 6, 7, 3, 5, 1 };
    int x = (int)vh_below(r, 98); e->kind = 0;
    for (int k = 0; k < VS_KINDS; k++) { if (x < weight[k]) { e->kind = k; break; } x -= weight[k]; }
    e->id = vh_chance(r, 80) ? (double)vh_below(r, 1000000) : vh_chance(r, 30) ? (double)vh_below(r, 3) : (double)(vh_next(r) >> (11 + vh_below(r, 40)));
    if (e->kind == VS_INVALID) {
        switch (vh_below(r, 8)) {
        case 0: *out = N((double)vh_below(r, 100)); break; case 1: *out = mk(VJ_NULL); break; case 2: *out = S("call_tool"); break;
        case 3: *out = mk(VJ_BOOL); break; case 4: *out = mk(VJ_OBJ); break; case 5: { vj* v = mk(VJ_OBJ); put(v, "jsonrpc", S("2.0")); put(v, "foo", N(1)); *out = v; break; }
        case 6: { vj* v = mk(VJ_ARR); put(v, NULL, N(1)); *out = v; break; }
        default: { vj* v = mk(VJ_OBJ); put(v, "jsonrpc", S("2.0")); put(v, "method", N(4)); put(v, "id", N(7)); *out = v; break; }
        }
        return;
    }
    vj* m = mk(VJ_OBJ); vj* p = mk(VJ_OBJ); int has_p = 1;
    put(m, "jsonrpc", S("2.0"));
    const char* method = NULL; char buf[128];
    switch (e->kind) {
    case VS_PING: method = "ping"; has_p = vh_chance(r, 30); break;
    case VS_TOOL: {
        method = "call_tool"; vs_tool_name((int)vh_below(r, 45), buf); if (vh_chance(r, 10)) { free(e->name); e->name = vj_gen_str(r, NULL); } else e->name = strdup(buf);
        if (vh_chance(r, 90)) { e->args = vh_chance(r, 70) ? mk(VJ_OBJ) : vj_gen(r, 2); if (e->args->t == VJ_OBJ) { if (vh_chance(r, 50)) put(e->args, "x", vj_gen(r, 3)); if (w->nonce) { e->nonce = atomic_fetch_add(&next_nonce, 1) % VS_NONCES; put(e->args, "nonce", N((double)e->nonce)); } } }
        put(p, "name", S(e->name)); if (e->args) put(p, "arguments", copy(e->args));
        break; }
    case VS_TOOL_BAD: method = "call_tool"; if (vh_chance(r, 40)) has_p = 0; else if (vh_chance(r, 50)) put(p, "name", vh_chance(r, 50) ? N(3) : mk(VJ_NULL)); break;
    case VS_READ: method = "read_resource"; e->uri = (int)vh_below(r, vh_chance(r, 50) ? 10 : VS_URIS); vs_uri(w, e->uri, buf, sizeof buf); if (vh_chance(r, 8)) { snprintf(buf, sizeof buf, "none://%d/x", (int)vh_below(r, 99)); e->uri = -1; } e->name = strdup(buf); put(p, "uri", S(buf)); break;
    case VS_READ_BAD: method = "read_resource"; if (vh_chance(r, 40)) has_p = 0; else if (vh_chance(r, 50)) put(p, "uri", vh_chance(r, 50) ? N(3) : mk(VJ_ARR)); break;
    case VS_LTOOLS: method = "list_tools"; has_p = vh_chance(r, 50) || w->key; break;
    case VS_LRES: method = "list_resources"; has_p = vh_chance(r, 50) || w->key; break;
    case VS_LTMPL: method = "list_resource_templates"; has_p = vh_chance(r, 50) || w->key; break;
    case VS_METRICS: method = "get_performance_metrics"; has_p = vh_chance(r, 50) || w->key; break;
    case VS_UNKNOWN: { static const char* u[] = { "nope", "pin", "pingg", "call_tools", "Call_tool", "list_tool", "", "read_resourc", "list_resource_template", "ping ", "get_performance_metric" }; method = u[vh_below(r, 11)]; has_p = vh_chance(r, 70);
        /* or one letter away from a method that exists */
        if (vh_chance(r, 60)) { static const char* v[] = { "ping", "call_tool", "read_resource", "list_tools", "list_resources", "list_resource_templates", "get_performance_metrics" }; strcpy(buf, v[vh_below(r, 7)]); size_t at = vh_below(r, strlen(buf)); buf[at] = buf[at] == '_' ? '-' : vh_chance(r, 50) ? (char)(buf[at] - 32) : buf[at] == 'z' ? 'q' : (char)(buf[at] + 1); method = buf; }
        break; }
    case VS_NOTE: { static const char* u[] = { "notifications/initialized", "initialized", "ping", "x" }; method = u[vh_below(r, 4)]; has_p = vh_chance(r, 50); break; }
    case VS_RESP: has_p = 0; if (vh_chance(r, 50)) put(m, "result", vj_gen(r, 2)); else { vj* er = mk(VJ_OBJ); put(er, "code", N(-32000 - (double)vh_below(r, 99))); put(er, "message", S("m")); put(m, "error", er); } break;
    }
    if (has_p && vh_chance(r, 25)) put(p, "extra", vj_gen(r, 2));
    e->auth = add_key(w, r, p, m);
    if (has_p && p->cnt > 1) shuffle(p, r);
    if (!has_p && w->key) e->auth = 0;
    if (method) put(m, "method", S(method));
    if (e->kind != VS_NOTE) put(m, "id", N(e->id));
    if (has_p) put(m, "params", p); else vj_free(p);
    if (vh_chance(r, 15)) put(m, "zz", vj_gen(r, 1));
    shuffle(m, r);
    *out = m;
}
void vs_gen(vs_world* w, vh_rng* r, vs_msg* m, int allow_garbage) {
    memset(m, 0, sizeof *m);
    m->batch = vh_chance(r, 35);
    m->calls_before = atomic_load(&w->tool_calls); m->res_before = atomic_load(&w->res_calls);
    m->n = m->batch ? (int)(vh_chance(r, 5) ? vh_below(r, vh_chance(r, 4) ? 1300 : 60) : vh_below(r, 9)) : 1;
    m->e = calloc((size_t)(m->n ? m->n : 1), sizeof *m->e);
    vj* arr = mk(VJ_ARR); size_t total = 0;
    for (int i = 0; i < m->n; i++) {
        vj* v = NULL; elem(w, r, &m->e[i], &v); put(arr, NULL, v);
        if (m->n > 60) { sb t = { 0 }; vj_write(v, r, &t); total += t.n; sb_free(&t); if (total > 600000) m->n = i + 1; }    /* a server accepts messages up to 1 MB */
    }
    if (!m->batch && m->e[0].uri >= 0) { m->calls0 = atomic_load(&w->calls_res[m->e[0].uri]); m->good0 = atomic_load(&w->version[m->e[0].uri]); }
    if (m->batch) vj_write(arr, r, &m->text);
    else { if (m->e[0].kind == VS_INVALID && arr->v[0]->t == VJ_ARR) { vj_free(arr->v[0]); arr->v[0] = N(5); } vj_write(arr->v[0], r, &m->text); }
    vj_free(arr);
    if (allow_garbage && vh_chance(r, 6)) {
        m->garbage = 1;
        /* cut short: the closing bracket is missing, so this is no document; scalars could still be one */
        size_t e = m->text.n; while (e > 0 && strchr(" \t\r\n", m->text.p[e - 1])) e--;
        if (e > 1 && (m->text.p[e - 1] == '}' || m->text.p[e - 1] == ']')) m->text.n = 1 + vh_below(r, e - 1); else { m->text.n = 0; sb_s(&m->text, "]nonsense"); }
        m->text.p[m->text.n] = 0;
        size_t b = strspn(m->text.p, " \t\r\n"); if (b == m->text.n) { m->text.n = 0; sb_s(&m->text, "{"); }
    }
}
void vs_forget_nonces(vs_world* w, const vs_msg* m) { for (int i = 0; i < m->n && w->nonce; i++) if (m->e[i].nonce >= 0) w->nonce[m->e[i].nonce] = 0; }
void vs_msg_free(vs_msg* m) { for (int i = 0; i < m->n; i++) { free(m->e[i].name); vj_free(m->e[i].args); } free(m->e); sb_free(&m->text); }

static int answered(const vs_elem* e) { return e->kind != VS_NOTE && e->kind != VS_RESP; }
static char* clip(const char* s, size_t n) { static __thread char b[2][700]; static __thread int k; k ^= 1; if (!s) return strcpy(b[k], "(nothing)"); if (n > 690) n = 690; memcpy(b[k], s, n); b[k][n] = 0; return b[k]; }
static int items(vs_world* w, const vj* arr, const vs_out* o, int resource, const char* uri, const char* prefix) {
    (void)w;
    if (!arr || arr->t != VJ_ARR || arr->cnt != (size_t)o->n) return 1;
    for (int i = 0; i < o->n; i++) {
        const vj* it = arr->v[i]; const vs_item* x = &o->it[i];
        if (it->t != VJ_OBJ) return 2;
        const char* mt = vj_str(it, "mimeType");
        if ((mt != NULL) != (x->mime != NULL) || (mt && strcmp(mt, x->mime))) return 3;
        if (resource) { const char* u = vj_str(it, "uri"); if (!u || strcmp(u, uri)) return 4; }
        else { const char* t = vj_str(it, "type"); if (!t || strcmp(t, x->type == MCP_CONTENT_TYPE_TEXT ? "text" : x->type == MCP_CONTENT_TYPE_JSON ? "json" : "binary")) return 5; }
        if (x->type == MCP_CONTENT_TYPE_BINARY) continue;
        vj* tx = vj_get(it, "text");
        size_t pn = prefix && i == 0 ? strlen(prefix) : 0;
        if (!tx && x->n + pn == 0) continue;   /* nothing to show */
        if (!tx || tx->t != VJ_STR || tx->sn != x->n + pn || (pn && memcmp(tx->s, prefix, pn)) || memcmp(tx->s + pn, x->text, x->n)) return 6;
    }
    return 0;
}
static void listing(vs_world* w, int kind, const vj* res) {
    const char* member = kind == VS_LTOOLS ? "tools" : kind == VS_LRES ? "resources" : "resourceTemplates";
    const char* idm = kind == VS_LTOOLS ? "name" : kind == VS_LRES ? "uri" : "uriTemplate";
    int want = kind == VS_LTOOLS ? w->tools : kind == VS_LRES ? w->res : w->tmpl;
    vj* a = vj_get(res, member);
    if (!a || a->t != VJ_ARR || a->cnt != (size_t)want) { vh_viol("list:count", "%s lists %d of %d", member, a ? (int)a->cnt : -1, want); return; }
    for (int i = 0; i < want; i++) {
        char id[128]; if (kind == VS_LTOOLS) vs_tool_name(i, id); else if (kind == VS_LRES) vs_uri(w, i, id, sizeof id); else sprintf(id, "tmpl%d://{a}/{b}", i);
        vj* it = NULL; int seen = 0;
        for (size_t k = 0; k < a->cnt; k++) { const char* s = vj_str(a->v[k], idm); if (s && !strcmp(s, id)) { it = a->v[k]; seen++; } }
        if (seen != 1) { vh_viol("list:missing", "%s: %s listed %d times", member, id, seen); return; }
        const char* d = kind == VS_LTOOLS ? (i % 2 ? "does \"things\"\n" : NULL) : kind == VS_LRES ? (i % 2 ? "d\\" : NULL) : (i % 2 ? "d" : NULL);
        const char* g = vj_str(it, "description");
        if ((d != NULL) != (g != NULL) || (d && strcmp(d, g))) { vh_viol("list:description", "%s: %s has another description", member, id); return; }
        if (kind != VS_LTOOLS) { const char* mt = vj_str(it, "mimeType"), * nm = vj_str(it, "name"); char n[32]; sprintf(n, "n%d", i); const char* wm = mime_of(i); if ((mt != NULL) != (wm != NULL) || (wm && strcmp(mt, wm)) || !nm || strcmp(nm, kind == VS_LRES ? n : "n")) { vh_viol("list:fields", "%s: %s has other fields", member, id); return; } }
        else if (nparams(i)) {
            vj* sc = vj_get(it, "inputSchema"), * pr = vj_get(sc, "properties"), * rq = vj_get(sc, "required");
            if (!pr || vj_size(pr) != (size_t)nparams(i)) { vh_viol("list:schema", "tool %s: schema with other parameters", id); return; }
            int nreq = 0;
            for (int k = 0; k < nparams(i); k++) {
                char p[32]; sprintf(p, "p%d", k); vj* o = vj_get(pr, p); const char* ty = vj_str(o, "type");
                if (!ty || strcmp(ty, k % 2 ? "string" : "number")) { vh_viol("list:schema", "tool %s: parameter %s has another type", id, p); return; }
                const char* pd = vj_str(o, "description"), * wd = param_desc(k);
                if ((pd != NULL) != (wd != NULL) || (wd && strcmp(pd, wd))) { vh_viol("list:schema", "tool %s: parameter %s has another description", id, p); return; }
                int inreq = 0; if (rq && rq->t == VJ_ARR) for (size_t z = 0; z < rq->cnt; z++) if (rq->v[z]->t == VJ_STR && !strcmp(rq->v[z]->s, p)) inreq++;
                if (inreq != (k != 1)) { vh_viol("list:schema", "tool %s: parameter %s wrongly required", id, p); return; }
                nreq += k != 1;
            }
            if ((rq ? rq->cnt : 0) != (size_t)nreq) { vh_viol("list:schema", "tool %s: %d required", id, nreq); return; }
        }
    }
}
static int check_one(vs_world* w, vs_msg* m, vs_elem* e, const vj* a, const char* resp, size_t rn, int alone, long* want_tool) {
    (void)alone;
    const char* in = clip(m->text.p, m->text.n); const char* out = clip(resp, rn);
    if (!a || a->t != VJ_OBJ) { vh_viol("answer:shape", "%s answered by something that is no object: %s -> %s", vs_kind_name[e->kind], in, out); return 0; }
    const char* ver = vj_str(a, "jsonrpc"); vj* id = vj_get(a, "id"), * res = vj_get(a, "result"), * err = vj_get(a, "error");
    if (!ver || strcmp(ver, "2.0")) vh_viol("answer:version", "%s -> %s", in, out);
    if ((res != NULL) + (err != NULL) != 1) { vh_viol("answer:result-or-error", "%s: needs exactly one of result and error: %s -> %s", vs_kind_name[e->kind], in, out); return 0; }
    vj* ec = vj_get(err, "code");
    if (err && (!ec || ec->t != VJ_NUM || !vj_str(err, "message"))) { vh_viol("answer:error-shape", "%s: %s -> %s", vs_kind_name[e->kind], in, out); return 0; }
    if (e->kind == VS_INVALID) { if (!err) vh_viol("answer:invalid-served", "invalid element got a result: %s -> %s", in, out); return 1; }
    if (!id || id->t != VJ_NUM || id->n != e->id) { vh_viol("answer:id", "%s with id %.0f: %s -> %s", vs_kind_name[e->kind], e->id, in, out); return 0; }
    if (!e->auth && e->kind != VS_PING) { if (res) vh_viol("auth:served", "%s served without the key: %s -> %s", vs_kind_name[e->kind], in, out); return 1; }
    int cap = e->kind == VS_TOOL || e->kind == VS_LTOOLS ? w->tool_cap : e->kind == VS_READ || e->kind == VS_LRES || e->kind == VS_LTMPL ? w->res_cap : 1;
    if (!cap) { if (res) vh_viol("answer:unsupported", "%s served although not supported", vs_kind_name[e->kind]); return 1; }
    switch (e->kind) {
    case VS_PING: case VS_METRICS: if (!res) vh_viol("answer:refused", "%s not served: %s -> %s", vs_kind_name[e->kind], in, out); break;
    case VS_TOOL_BAD: case VS_READ_BAD: case VS_UNKNOWN: if (res) vh_viol("answer:bad-served", "%s got a result: %s -> %s", vs_kind_name[e->kind], in, out); break;
    case VS_LTOOLS: case VS_LRES: case VS_LTMPL: if (!res) vh_viol("answer:refused", "%s not served: %s -> %s", vs_kind_name[e->kind], in, out); else listing(w, e->kind, res); break;
    case VS_TOOL: {
        (*want_tool)++;
        uint64_t h = vh_hash(e->name, strlen(e->name), 11); if (e->args) { uint64_t c = vs_canon(e->args); h = vh_hash(&c, 8, h); }
        vs_out o; vs_outcome(w, h, 0, &o);
        if (o.status) {
            if (!err || (int)ec->n != o.status) vh_viol("tool:status", "handler failed with %d, client got something else: %s -> %s", o.status, in, out);
            else if (o.emsg && strcmp(vj_str(err, "message"), o.emsg)) vh_viol("tool:error-text", "handler's error text changed: %s -> %s", in, out);
        } else if (!res) vh_viol("tool:refused", "tool call refused: %s -> %s", in, out);
        else {
            vj* ie = vj_get(res, "isError");
            if (!ie || ie->t != VJ_BOOL || ie->b != o.is_error) vh_viol("tool:is-error", "isError differs: %s -> %s", in, out);
            int d = items(w, vj_get(res, "content"), &o, 0, NULL, NULL);
            if (d) { static const char* what[] = { "", "item count", "item shape", "media type", "uri", "type", "text" }; vh_viol("tool:content", "content differs from what the handler produced (%s): %s -> %s", what[d], in, out); }
        }
        if (e->nonce >= 0 && w->nonce[e->nonce] != 1) vh_viol("tool:times", "handler was called %d times for one request: %s", (int)w->nonce[e->nonce], in);
        vs_out_free(&o);
        break; }
    case VS_READ: {
        if (e->uri < 0) { if (res) vh_viol("read:invented", "content for a resource that does not exist: %s -> %s", in, out); break; }
        if (err) break;   /* the handler may have failed; counted by the caller */
        vj* c = vj_get(res, "contents"); int v = -1;
        if (c && c->t == VJ_ARR && c->cnt && c->v[0]->t == VJ_OBJ) { const char* t = vj_str(c->v[0], "text"); if (t && sscanf(t, "v%d:", &v) != 1) v = -1; else if (!t) v = -2; }
        if (v == -2) {   /* first item binary: nothing to recompute from */ break; }
        if (v < 1 || v > atomic_load(&w->calls_res[e->uri])) { vh_viol("read:content", "content that no handler call produced: %s -> %s", in, out); break; }
        vs_out o; vs_outcome(w, res_seed(e->uri, v), 1, &o);
        char p[32]; snprintf(p, sizeof p, "v%d:", v);
        int d = o.status ? 1 : items(w, c, &o, 1, e->name, p);
        if (d) { static const char* what[] = { "", "item count", "item shape", "media type", "uri", "type", "text" }; vh_viol("read:content", "content differs from what the handler produced (%s): %s -> %s", what[d], in, out); }
        vs_out_free(&o);
        m->lastver = v;
        break; }
    }
    return 1;
}
int vs_answers(const vs_msg* m) {
    if (m->garbage || (m->batch && m->n == 0) || (!m->batch && m->e[0].kind == VS_INVALID)) return 1;
    for (int i = 0; i < m->n; i++) if (answered(&m->e[i])) return 1;
    return 0;
}
void vs_check(vs_world* w, vs_msg* m, const char* resp, size_t rn, int alone) {
    int want = 0; for (int i = 0; i < m->n; i++) want += answered(&m->e[i]);
    const char* in = clip(m->text.p, m->text.n); const char* out = clip(resp, rn);
    vj* a = NULL;
    if (resp) { vj_info inf; a = vj_parse(resp, rn, &inf); if (!a || inf.soft) { vh_viol("answer:not-json", "answer is not JSON: %s -> %s", in, out); vj_free(a); return; } }
    long wt = 0;
    if (m->garbage || (m->batch && m->n == 0) || (!m->batch && m->e[0].kind == VS_INVALID)) {
        if (a && (a->t != VJ_OBJ || !vj_get(a, "error") || vj_get(a, "result"))) vh_viol("answer:garbage", "no document / empty batch / no request answered by %s: %s", out, in);
        if (!a) vh_viol("answer:garbage-silent", "unreadable message gets no error: %s", in);
    } else if (want == 0) { if (a) vh_viol("answer:unasked", "%s: nothing to answer but got %s", in, out); }
    else if (!a) vh_viol("answer:missing", "no answer to %s", in);
    else if (!m->batch) check_one(w, m, &m->e[0], a, resp, rn, alone, &wt);
    else if (a->t != VJ_ARR || a->cnt != (size_t)want) vh_viol("answer:count", "%d answers wanted, got %d: %s -> %s", want, a->t == VJ_ARR ? (int)a->cnt : -1, in, out);
    else { size_t k = 0; for (int i = 0; i < m->n; i++) if (answered(&m->e[i])) if (!check_one(w, m, &m->e[i], a->v[k++], resp, rn, alone, &wt)) break; }
    if (alone && !m->batch && !m->garbage && a && m->e[0].kind == VS_READ && m->e[0].uri >= 0 && m->e[0].auth && w->res_cap) {
        int now = atomic_load(&w->calls_res[m->e[0].uri]); vj* err = vj_get(a, "error"), * ec = vj_get(err, "code");
        if (now == m->calls0) {
            if (err) vh_viol("read:refused", "read refused without asking the handler: %s -> %s", in, out);
            else if (m->lastver && m->lastver != m->good0) vh_viol("read:stale", "cached content is version %d, the last one produced is %d: %s", m->lastver, m->good0, in);
        } else {
            vs_out o; vs_outcome(w, res_seed(m->e[0].uri, now), 1, &o);
            if (o.status ? !ec || (int)ec->n != o.status : !!err) vh_viol("read:status", "handler ended with %d, client got %s", o.status, out);
            else if (!o.status && m->lastver && m->lastver != now) vh_viol("read:stale", "handler just produced version %d, client got %d: %s", now, m->lastver, in);
            vs_out_free(&o);
        }
    }
    vj_free(a);
    if (alone) {
        long reads = 0;
        for (int i = 0; i < m->n; i++) if (m->e[i].kind == VS_READ && m->e[i].auth && w->res_cap) reads++;
        if (m->garbage) reads = 0;
        long tc = atomic_load(&w->tool_calls) - m->calls_before, rc = atomic_load(&w->res_calls) - m->res_before;
        if (tc != wt) vh_viol("tool:calls", "tool handler called %ld times for %ld permitted tool requests: %s", tc, wt, in);
        if (rc > reads) vh_viol("read:calls", "resource handler called %ld times for %ld permitted reads: %s", rc, reads, in);
    }
}
