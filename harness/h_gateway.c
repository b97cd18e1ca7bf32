// USE: vsrv
/* The gateway (P15).
   route    configurations read from files against a model of which backend a request belongs to; the lookup and the configuration manager, reloads
   forward  a server in gateway mode in front of backends that answer, fail, break the connection, stay silent, are not there or are restarted
   stall    backends nobody accepts for must not keep requests from the others */
#include <regex.h>
#include <dirent.h>
#include <math.h>
#include "rawsrv.h"
#include "vsrv.h"
#include "mcp_gateway.h"
#include "mcp_gateway_pool.h"
#include "mcp_gateway_routing.h"
#include "mcp_gateway_config_manager.h"
#include "mcp_server_core.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"

/* ---- configurations ---- */
typedef struct { char name[64], addr[64]; int np, nt, nx; char* p[6]; char* t[6]; char* x[4]; double timeout; int has_timeout; } mb;
typedef struct { int n; mb b[8]; } model;
static char* word(vh_rng* r, const char* letters, int max) { int n = (int)vh_below(r, (uint64_t)max + 1); char* s = malloc((size_t)n + 1); for (int i = 0; i < n; i++) s[i] = letters[vh_below(r, strlen(letters))]; s[n] = 0; return s; }
static const char* const regexes[] = { "^a", "b$", "^.{3}$", "a.*b", "^(ab|ba)+$", "[/:]{2}", "^[^a]*$", "^a?b?/", "//", "\xc3\xa9", "^x+", "a\\.b", "^$" };
static char* tool_name(vh_rng* r) { char b[200]; int k = (int)vh_below(r, 8); switch (vh_below(r, 6)) { case 0: snprintf(b, sizeof b, "t%d", k); break; case 4: snprintf(b, sizeof b, "T%d", k); break; case 5: snprintf(b, sizeof b, "t%d%d", k / 2, k % 2); break; case 1: snprintf(b, sizeof b, "tool \"%d\"\\", k); break; case 2: memset(b, 'n', 150); snprintf(b + 150, 50, "%d", k % 3); break; default: snprintf(b, sizeof b, "t\xc3\xa9%d", k); } return strdup(b); }
static void model_free(model* m) { for (int i = 0; i < m->n; i++) { mb* b = &m->b[i]; for (int k = 0; k < b->np; k++) free(b->p[k]); for (int k = 0; k < b->nt; k++) free(b->t[k]); for (int k = 0; k < b->nx; k++) free(b->x[k]); } memset(m, 0, sizeof *m); }
static void model_gen(vh_rng* r, model* m) {
    memset(m, 0, sizeof *m); m->n = (int)vh_below(r, 7);
    for (int i = 0; i < m->n; i++) {
        mb* b = &m->b[i]; snprintf(b->name, sizeof b->name, "b%d-%llx", i, (unsigned long long)vh_next(r)); snprintf(b->addr, sizeof b->addr, "%s127.0.0.1:%d", vh_chance(r, 50) ? "tcp://" : "", 1 + (int)vh_below(r, 60000));
        b->np = (int)vh_below(r, 4); b->nt = (int)vh_below(r, 5); b->nx = (int)vh_below(r, 3);
        for (int k = 0; k < b->np; k++) { b->p[k] = word(r, "ab/:\"\\", 4); if (!*b->p[k] && vh_chance(r, 80)) { free(b->p[k]); b->p[k] = strdup("ab"); } }
        for (int k = 0; k < b->nt; k++) b->t[k] = tool_name(r);
        for (int k = 0; k < b->nx; k++) b->x[k] = strdup(regexes[vh_below(r, sizeof regexes / sizeof *regexes)]);
        b->has_timeout = vh_chance(r, 70); static const double ts[] = { 0, 1, 250, 5000, 1.5, -1, -1e300, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 1e19, 1e300 }; b->timeout = ts[vh_below(r, 13)];
    }
}
static void strs(sb* o, vh_rng* r, const char* key, char** v, int n) { if (!n && vh_chance(r, 30)) return; sb_f(o, ",\"%s\":", key); if (!n && vh_chance(r, 30)) { sb_s(o, "null"); return; } sb_c(o, '['); for (int i = 0; i < n; i++) { if (i) sb_c(o, ','); vj_write_str(v[i], strlen(v[i]), r, o); } sb_c(o, ']'); }
static void model_text(vh_rng* r, const model* m, sb* o) {
    sb_c(o, '[');
    for (int i = 0; i < m->n; i++) {
        const mb* b = &m->b[i]; if (i) sb_c(o, ','); sb_f(o, "{\"name\":\"%s\",\"address\":\"%s\"", b->name, b->addr); if (b->has_timeout) sb_f(o, ",\"timeout_ms\":%.17g", b->timeout); if (vh_chance(r, 20)) { sb_s(o, ",\"comment\":\""); for (int k = (int)vh_below(r, 6000); k > 0; k--) sb_c(o, 'c'); sb_c(o, '"'); }
        sb_s(o, ",\"routing\":{\"z\":1"); strs(o, r, "resource_prefixes", (char**)b->p, b->np); strs(o, r, "tool_names", (char**)b->t, b->nt); strs(o, r, "resource_regexes", (char**)b->x, b->nx); sb_s(o, "}}");
    }
    sb_c(o, ']'); if (vh_chance(r, 10)) for (int k = (int)((1024 - o->n % 1024) % 1024); k > 0; k--) sb_c(o, '\n');
}
static void put_file(const char* path, const char* p, size_t n) { FILE* f = fopen(path, "wb"); if (!f || fwrite(p, 1, n, f) != n || fclose(f)) { printf("cannot write %s\n", path); exit(3); } }
static int model_route(const model* m, const char* method, const char* uri, const char* tool) {
    for (int i = 0; i < m->n; i++) {
        const mb* b = &m->b[i];
        if (!strcmp(method, "read_resource") && uri) { for (int k = 0; k < b->np; k++) if (!strncmp(uri, b->p[k], strlen(b->p[k]))) return i; for (int k = 0; k < b->nx; k++) { regex_t x; if (regcomp(&x, b->x[k], REG_EXTENDED | REG_NOSUB)) continue; int hit = !regexec(&x, uri, 0, NULL, 0); regfree(&x); if (hit) return i; } }
        if (!strcmp(method, "call_tool") && tool) for (int k = 0; k < b->nt; k++) if (!strcmp(tool, b->t[k])) return i;
    }
    return -1;
}
typedef struct { char method[32]; char* uri; char* tool; sb params; int null_params; } rq;
static void rq_gen(vh_rng* r, const model* m, rq* q) {
    memset(q, 0, sizeof *q); int x = (int)vh_below(r, 10); strcpy(q->method, x < 5 ? "read_resource" : x < 9 ? "call_tool" : vh_chance(r, 50) ? "list_tools" : "read_resourceX"); int good = vh_chance(r, 92);
    char* uri = word(r, vh_chance(r, 20) ? "a\xe9" : "ab/:x.\"\\", 7); if (strchr(uri, '\xe9')) { free(uri); uri = strdup("a\xc3\xa9"); }
    /* close to what is configured: a prefix, one character short of it, one more, in capitals */
    if (m->n && vh_chance(r, 40)) { const mb* b = &m->b[vh_below(r, (uint64_t)m->n)]; if (b->np) { const char* p = b->p[vh_below(r, (uint64_t)b->np)]; size_t l = strlen(p); free(uri); uri = calloc(1, l + 8); memcpy(uri, p, l); switch (vh_below(r, 5)) { case 0: if (l) uri[l - 1] = 0; break; case 1: uri[l] = "ab/:x"[vh_below(r, 5)]; break; case 2: for (size_t k = 0; k < l; k++) if (uri[k] >= 'a' && uri[k] <= 'z' && vh_chance(r, 60)) uri[k] = (char)(uri[k] - 32); break; case 3: memmove(uri + 1, uri, l + 1); uri[0] = "ab/ "[vh_below(r, 4)]; break; default: break; } } }
    char* tool = m->n && vh_chance(r, 60) ? NULL : tool_name(r); if (!tool) { const mb* b = &m->b[vh_below(r, (uint64_t)m->n)]; tool = b->nt ? strdup(b->t[vh_below(r, (uint64_t)b->nt)]) : tool_name(r); }
    if (!good && vh_chance(r, 30)) q->null_params = 1;
    else if (!good) { static const char* bad[] = { "[]", "{}", "\"uri\"", "7", "{\"uri\":7,\"name\":[]}", "{\"uri\":null,\"name\":null}", "{\"params\":{\"uri\":\"a\",\"name\":\"t1\"}}", "{\"URI\":\"a\",\"Name\":\"t1\"}", "not json", "" }; sb_s(&q->params, bad[vh_below(r, 10)]); }
    else {
        q->uri = strdup(uri); q->tool = strdup(tool); sb_c(&q->params, '{'); if (vh_chance(r, 40)) sb_s(&q->params, "\"arguments\":{\"uri\":\"b\",\"name\":\"t2\"},");
        sb_s(&q->params, "\"uri\" : "); vj_write_str(uri, strlen(uri), r, &q->params); sb_s(&q->params, ",\"name\":"); vj_write_str(tool, strlen(tool), r, &q->params); if (vh_chance(r, 40)) sb_s(&q->params, ",\"k\":[1,{\"uri\":\"x\"}]"); sb_c(&q->params, '}');
    }
    free(uri); free(tool);
}
static void rq_free(rq* q) { free(q->uri); free(q->tool); sb_free(&q->params); }
static void check_list(const model* m, const mcp_backend_info_t* l, size_t n, const char* how) {
    if (n != (size_t)m->n) { vh_viol("gw:config", "%s: a configuration of %d backends was read as %zu", how, m->n, n); return; }
    for (int i = 0; i < m->n; i++) {
        const mb* b = &m->b[i]; int bad = strcmp(l[i].name, b->name) || strcmp(l[i].address, b->addr) || l[i].routing.resource_prefix_count != (size_t)b->np || l[i].routing.tool_name_count != (size_t)b->nt || l[i].routing.resource_regex_count != (size_t)b->nx;
        for (int k = 0; !bad && k < b->np; k++) bad = strcmp(l[i].routing.resource_prefixes[k], b->p[k]);
        for (int k = 0; !bad && k < b->nt; k++) bad = strcmp(l[i].routing.tool_names[k], b->t[k]);
        for (int k = 0; !bad && k < b->nx; k++) bad = strcmp(l[i].routing.resource_regex_patterns[k], b->x[k]);
        if (!bad && b->has_timeout && b->timeout >= 1 && b->timeout < 4294967296.0 && l[i].timeout_ms != (uint32_t)b->timeout) bad = 2;
        if (!bad && (!b->has_timeout || b->timeout < 1) && l[i].timeout_ms != 0 && !(b->timeout > 0)) bad = 2;
        if (bad) { vh_viol("gw:config", "%s: backend %d was read wrongly (%s)", how, i, bad == 2 ? "timeout" : b->name); return; }
    }
}
static void route(vh_rng* r) {
    mcp_arena_init_current_thread(65536); char path[600]; snprintf(path, sizeof path, "%s/gateway.json", vh_dir);
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        model m; model_gen(r, &m); sb t = { 0 }; model_text(r, &m, &t); put_file(path, t.p, t.n); mcp_backend_info_t* l = NULL; size_t n = 0; mcp_error_code_t e = load_gateway_config(path, &l, &n);
        if (e != MCP_ERROR_NONE) { vh_viol("gw:config", "a valid configuration was refused with %d: %.200s", e, t.p); model_free(&m); sb_free(&t); break; }
        check_list(&m, l, n, "load"); gateway_config_manager_t* mg = gateway_config_manager_create(path); if (!mg) { vh_viol("gw:config", "no manager for a valid configuration"); break; }
        int routed = 0, asked = 0;
        for (int i = 0, k = 5 + (int)vh_below(r, 30); i < k && vh_viol_count() < 5; i++) {
            rq q; rq_gen(r, &m, &q); mcp_request_t req = { .id = vh_below(r, 100), .method = q.method, .params = q.null_params ? NULL : (q.params.p ? q.params.p : "") }; int want = model_route(&m, q.method, q.uri, q.tool); asked++;
            const mcp_backend_info_t* a = find_backend_for_request(&req, l, n); const mcp_backend_info_t* b = gateway_config_manager_find_backend(mg, &req); routed += want >= 0;
            const char* wn = want < 0 ? NULL : m.b[want].name;
            if ((a ? 1 : 0) != (wn ? 1 : 0) || (a && strcmp(a->name, wn))) vh_viol("gw:route", "%s %.100s goes to %s, the configuration says %s", q.method, q.params.p ? q.params.p : "NULL", a ? a->name : "nobody", wn ? wn : "nobody");
            if ((b ? 1 : 0) != (wn ? 1 : 0) || (b && strcmp(b->name, wn))) vh_viol("gw:route-managed", "%s %.100s goes to %s by way of the manager, the configuration says %s", q.method, q.params.p ? q.params.p : "NULL", b ? b->name : "nobody", wn ? wn : "nobody");
            vh_distinct(vh_hash(q.params.p ? q.params.p : "", q.params.n, (uint64_t)want + 77)); rq_free(&q);
            if (vh_chance(r, 8)) {      /* the file changes */
                model m2; model_gen(r, &m2); sb t2 = { 0 }; model_text(r, &m2, &t2); int broken = vh_chance(r, 50);
                if (broken) { switch (vh_below(r, 7)) { case 0: t2.n = t2.n ? vh_below(r, t2.n - 1) + 1 : 0; if (!t2.n || t2.p[t2.n - 1] == '\n') { t2.n = 0; sb_s(&t2, "[{"); } break; case 1: t2.n = 0; sb_s(&t2, "{\"name\":\"x\"}"); break; case 2: t2.n = 0; sb_s(&t2, "[{\"name\":\"a\",\"address\":\"h:1\",\"routing\":{\"tool_names\":[\"t1\"]}},5]"); break; case 3: t2.n = 0; sb_s(&t2, "[{\"name\":\"a\",\"address\":\"h:1\",\"routing\":{\"resource_prefixes\":[\"a\",\"b\"],\"tool_names\":[\"t1\",7]}}]"); break; case 4: t2.n = 0; sb_s(&t2, "[{\"name\":\"a\",\"address\":\"h:1\",\"routing\":{\"tool_names\":[\"t1\"],\"resource_regexes\":[\"^a\",\"b\",\"(\"]}}]"); break; case 5: t2.n = 0; sb_s(&t2, "[{\"name\":\"a\",\"routing\":{}}]"); break; default: t2.n = 0; sb_s(&t2, "[{\"name\":\"a\",\"address\":\"h:1\",\"routing\":{\"resource_regexes\":[\"^a\",3]}}]"); } }
                put_file(path, t2.p, t2.n); mcp_error_code_t e2 = gateway_config_manager_reload(mg);
                if (broken && e2 == MCP_ERROR_NONE) vh_viol("gw:config", "a broken configuration was accepted: %.*s", (int)(t2.n < 200 ? t2.n : 200), t2.p);
                if (!broken && e2 != MCP_ERROR_NONE) vh_viol("gw:config", "reloading a valid configuration failed with %d", e2);
                if (!broken) { model_free(&m); m = m2; mcp_free_backend_list(l, n); l = NULL; n = 0; if (load_gateway_config(path, &l, &n) != MCP_ERROR_NONE) vh_viol("gw:config", "a valid configuration was refused"); } else { model_free(&m2); mcp_backend_info_t* lx = (void*)1; size_t nx = 9; if (load_gateway_config(path, &lx, &nx) == MCP_ERROR_NONE || lx || nx) vh_viol("gw:config", "a broken configuration left a list"); vh_count("broken configurations refused", 1); }
                size_t bn = 0; const mcp_backend_info_t* bl = gateway_config_manager_get_backends(mg, &bn); check_list(&m, bl, bn, "manager"); sb_free(&t2);
            }
        }
        gateway_config_manager_destroy(mg); mcp_free_backend_list(l, n); vh_evals(asked); vh_count("requests routed", routed); vh_count("requests without a route", asked - routed); if (c < 3) vh_sample("%d backends, %d requests, %d routed", m.n, asked, routed); model_free(&m); sb_free(&t); mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}

/* ---- forwarding ---- */
enum { ANSWER, LATE, ERROR_, RUBBISH, DROP, CUT, RESET, NEVER, TOOLATE };
#define NB 5        /* 0,1 answer or break; 2 has a short timeout and may be silent; 3 is not there at first; 4 is restarted */
#define MAXK 200000
static _Atomic(unsigned char) seen[NB][MAXK]; static _Atomic(long) next_k = 1; static uint64_t hash_of[MAXK];
static world bw[NB]; static vs_world* gw;
static vj* result_of(int b, long k) { vh_rng r; vh_rng_seed(&r, (uint64_t)k * 977 + (uint64_t)b * 31 + vh_seed); vj* o = calloc(1, sizeof *o); o->t = VJ_OBJ; o->cnt = 3; o->k = malloc(3 * sizeof *o->k); o->v = malloc(3 * sizeof *o->v); o->k[0] = strdup("b"); o->v[0] = calloc(1, sizeof(vj)); o->v[0]->t = VJ_NUM; o->v[0]->n = b; o->k[1] = strdup("k"); o->v[1] = calloc(1, sizeof(vj)); o->v[1]->t = VJ_NUM; o->v[1]->n = (double)k; o->k[2] = strdup("x"); o->v[2] = vj_gen(&r, 3); return o; }
static char* message_of(long k, size_t* n) { vh_rng r; vh_rng_seed(&r, (uint64_t)k * 131 + vh_seed); char* s = vj_gen_str(&r, n); if (!*n) { free(s); s = strdup("m"); *n = 1; } return s; }
static int backend_frame(conn* c, char* b, size_t n, vh_rng* r) {
    int me = (int)(c->w - bw); vj* m = vj_parse(b, n, NULL); if (!m) { vh_viol("gw:frame", "backend %d was sent something that is not JSON: %.100s", me, b); return 1; }
    vj* id = vj_get(m, "id"); const char* method = vj_str(m, "method"); vj* params = vj_get(m, "params"); sb o = { 0 };
    if (method && !strcmp(method, "ping")) { sb_f(&o, "{\"jsonrpc\":\"2.0\",\"id\":%.17g,\"result\":{}}", id ? id->n : 0); push(c, o.p, o.n, 0, RAW_WHOLE); sb_free(&o); vj_free(m); return 0; }
    const char* x = params ? vj_str(params, "x") : NULL; long k = 0; int plan = 0;
    if (!method || !id || id->t != VJ_NUM || !x || sscanf(x, "%ld:%d", &k, &plan) != 2 || k <= 0 || k >= MAXK) { vh_viol("gw:frame", "backend %d was sent %.200s", me, b); vj_free(m); return 1; }
    if (vs_canon(params) != hash_of[k]) vh_viol("gw:params", "backend %d got other parameters than the caller sent: %.200s", me, b);
    if (strcmp(method, k % 2 ? "call_tool" : "read_resource")) vh_viol("gw:params", "backend %d got method %s for request %ld", me, method, k);
    atomic_fetch_add(&seen[me][k], 1); long us = plan == LATE ? (long)vh_below(r, 20000) : plan == TOOLATE ? 350000 + (long)vh_below(r, 200000) : 0;
    if (plan == ERROR_) { size_t mn; char* ms = message_of(k, &mn); sb_f(&o, "{\"jsonrpc\":\"2.0\",\"id\":%.17g,\"error\":{\"code\":%ld,\"message\":", id->n, -32000 - k % 90); vj_write_str(ms, mn, r, &o); sb_s(&o, "}}"); free(ms); }
    else { vj* res = result_of(me, k); sb_f(&o, "{\"jsonrpc\":\"2.0\",\"id\":%.17g,\"result\":", id->n); vj_write(res, r, &o); sb_c(&o, '}'); vj_free(res); }
    if (plan == RUBBISH) { static const char* z[] = { "{", "[]", "{\"jsonrpc\":\"2.0\",\"id\":99999999,\"result\":1}", "null", "{\"jsonrpc\":\"2.0\",\"method\":\"note\"}" }; const char* g = z[vh_below(r, 5)]; push(c, g, strlen(g), 0, RAW_WHOLE); us = 300; }
    if (plan == DROP || plan == RESET) drop(c, plan == RESET); else if (plan != NEVER) push(c, o.p, o.n, us, plan == CUT ? RAW_CUT : RAW_WHOLE);
    sb_free(&o); vj_free(m); return 0;
}
typedef struct { uint64_t seed; long n, ok, errs, local; int phase; } job;
static _Atomic(int) up3, up4; static int stalling;
/* one request through the gateway; 1 the backend's answer, 0 an error of the gateway's, -1 reported */
static int ask(vh_rng* r, int b, int plan, uint64_t* took, int* code) {
    long k = atomic_fetch_add(&next_k, 1); if (k >= MAXK) return -1; double id = vh_chance(r, 10) ? 0 : vh_chance(r, 50) ? (double)vh_below(r, 9) : (double)(vh_next(r) >> 11);
    sb p = { 0 }; sb_s(&p, "{\"x\":"); sb_f(&p, "\"%ld:%d\",", k, plan); if (k % 2) sb_f(&p, "\"name\":\"tool%d\",\"arguments\":", b); else sb_f(&p, "\"uri\":\"res%d://%ld/\",\"y\":", b, k); vj* a = vj_gen(r, 2); vj_write(a, r, &p); vj_free(a); sb_c(&p, '}');
    vj* pv = vj_parse(p.p, p.n, NULL); if (!pv) { sb_free(&p); return 1; } hash_of[k] = vs_canon(pv); vj_free(pv);
    sb m = { 0 }; sb_f(&m, "{\"jsonrpc\":\"2.0\",\"method\":\"%s\",\"id\":%.0f,\"params\":", k % 2 ? "call_tool" : "read_resource", id); sb_add(&m, p.p, p.n); sb_c(&m, '}'); sb_free(&p); sb_c(&m, 0);
    int err = 0; uint64_t t0 = vh_now_us(); char* resp = vs_send(gw, m.p, m.n - 1, &err); *took = vh_now_us() - t0; int out = -1; *code = 0;
    vj* v = resp ? vj_parse(resp, strlen(resp), NULL) : NULL; vj* rid = v ? vj_get(v, "id") : NULL; vj* rr = v ? vj_get(v, "result") : NULL; vj* re = v ? vj_get(v, "error") : NULL;
    if (!v || !rid || rid->t != VJ_NUM || rid->n != id || (!rr == !re)) vh_viol("gw:answer", "request %ld with id %.0f for backend %d was answered with %.200s", k, id, b, resp ? resp : "nothing");
    else if (rr && b == NB) out = 0;
    else if (rr) { vj* w = result_of(b, k); if (plan == ERROR_ || plan == NEVER || !vj_eq(rr, w)) { sb e = { 0 }; vj_write(w, NULL, &e); sb_c(&e, 0); vh_viol("gw:answer", "request %ld (plan %d) for backend %d was answered with %.300s, its answer is %.300s", k, plan, b, resp, e.p); sb_free(&e); } else out = 1; vj_free(w); }
    else {
        vj* c = vj_get(re, "code"); vj* ms = vj_get(re, "message"); out = 0; *code = c && c->t == VJ_NUM ? (int)c->n : 0; if (!*code || !ms || ms->t != VJ_STR) vh_viol("gw:answer", "an error answer without code or message: %.200s", resp);
        if (plan == ERROR_ && *code == -32000 - k % 90 && ms && ms->t == VJ_STR) { size_t mn; char* want = message_of(k, &mn); if (mn == ms->sn && !memcmp(want, ms->s, mn)) out = 1; else vh_viol("gw:error", "the backend's error message became \"%.100s\", it was \"%.100s\"", ms->s, want); free(want); }
    }
    long count = 0; for (int i = 0; i < NB; i++) { int s = seen[i][k]; if (s && i != b) vh_viol("gw:misrouted", "request %ld for backend %d reached backend %d", k, b, i); count += s; } if (count > 1) vh_viol("gw:repeated", "request %ld reached its backend %ld times", k, count); if (out == 1 && count != 1) vh_viol("gw:invented", "request %ld was answered without reaching its backend", k);
    free(resp); vj_free(v); sb_free(&m); return out;
}
static void* asking(void* a) {
    job* j = a; vh_rng r; vh_rng_seed(&r, j->seed); uint64_t took; int code;
    for (long i = 0; i < j->n && vh_viol_count() < 5; i++) {
        int b = (int)vh_below(&r, NB + 1), x = (int)vh_below(&r, 100), plan = x < 60 ? ANSWER : x < 75 ? LATE : x < 86 ? ERROR_ : x < 90 ? RUBBISH : DROP + (int)vh_below(&r, 3);
        if (b == 2) plan = vh_chance(&r, 85) ? ANSWER : vh_chance(&r, 50) ? NEVER : TOOLATE;
        if (b >= 3 && plan >= DROP) plan = ANSWER;
        if (b == 3 && j->phase == 0 && vh_chance(&r, 90)) b = 0;
        int u3 = up3, u4 = up4; int o = ask(&r, b, plan, &took, &code); u3 = u3 && up3; u4 = u4 && up4;
        if (o < 0) continue;
        if (b == NB) { if (o == 1) vh_viol("gw:route", "a request nothing matches was answered by a backend"); j->local++; continue; }
        int may_fail = plan >= DROP || b == 2 || (b == 3 && !u3) || (b == 4 && !u4); if (o == 0 && !may_fail) vh_viol("gw:failed", "a request (plan %d) for backend %d, which was up, failed with %d after %llu ms", plan, b, code, (unsigned long long)took / 1000);
        if (b == 3 && j->phase == 0 && o == 1) vh_viol("gw:invented", "a backend that is not there answered");
        if (took > 20000000) vh_viol("gw:slow", "a request for backend %d took %llu ms", b, (unsigned long long)took / 1000);
        if (o == 1) j->ok++; else j->errs++;
    }
    vs_thread_done(); return NULL;
}
static int count_dir(const char* p) { int n = 0; DIR* d = opendir(p); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static void gateway_open(vh_rng* r, const uint16_t* ports, int n, const uint32_t* timeout) {
    vs_cfg c = { .thread_pool = 2, .slow_us = 0 }; gw = vs_open(r, &c, NULL); char path[600]; snprintf(path, sizeof path, "%s/gateway.json", vh_dir); sb t = { 0 }; sb_c(&t, '[');
    for (int i = 0; i < n; i++) sb_f(&t, "%s{\"name\":\"b%d\",\"address\":\"%s127.0.0.1:%u\",\"timeout_ms\":%u,\"routing\":{\"tool_names\":[\"tool%d\"],%s}}", i ? "," : "", i, i % 2 ? "tcp://" : "", ports[i], timeout[i], i, i % 2 ? "" : "\"z\":0");
    /* resources: prefix for even backends, pattern for odd ones */
    t.n = 0; sb_c(&t, '['); for (int i = 0; i < n; i++) { sb_f(&t, "%s{\"name\":\"b%d\",\"address\":\"%s127.0.0.1:%u\",\"timeout_ms\":%u,\"routing\":{\"tool_names\":[\"tool%d\"],", i ? "," : "", i, i % 2 ? "tcp://" : "", ports[i], timeout[i], i); if (i % 2) sb_f(&t, "\"resource_regexes\":[\"^res%d:\"]}}", i); else sb_f(&t, "\"resource_prefixes\":[\"res%d:\"]}}", i); }
    sb_c(&t, ']'); put_file(path, t.p, t.n); sb_free(&t); mcp_arena_init_current_thread(65536); if (load_gateway_config(path, &gw->srv->backends, &gw->srv->backend_count) != MCP_ERROR_NONE) vh_viol("gw:config", "configuration refused"); mcp_arena_destroy_current_thread(); gw->srv->is_gateway_mode = true;
}
static void run(vh_rng* r, int phase, long each, long* ok, long* errs, long* local) {
    int n = 4 + (int)vh_below(r, 8); pthread_t th[12]; job js[12]; for (int i = 0; i < n; i++) { js[i] = (job){ .seed = vh_next(r), .n = each / n + 1, .phase = phase }; pthread_create(&th[i], NULL, asking, &js[i]); }
    if (phase == 1) { vh_usleep(20000); atomic_store(&up4, 0); uint16_t p = bw[4].port; server_close(&bw[4]); vh_usleep(30000); server_open(&bw[4], r, p, backend_frame); vh_usleep(1000000); atomic_store(&up4, 1); }
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); *ok += js[i].ok; *errs += js[i].errs; *local += js[i].local; }
}
static void forward(vh_rng* r) {
    { for (int i = 0; i < 1; i++) { vs_cfg c = { .thread_pool = 2 }; vs_world* w = vs_open(r, &c, NULL); vs_close(w); } } int fd0 = count_dir("/proc/self/fd"), th0 = count_dir("/proc/self/task"); uint16_t ports[NB]; uint32_t timeout[NB] = { 60000, 60000, 300, 60000, 60000 }; long ok = 0, errs = 0, local = 0;
    for (int i = 0; i < NB; i++) { server_open(&bw[i], r, 0, backend_frame); ports[i] = bw[i].port; atomic_store(&bw[i].slow, 0); } server_close(&bw[3]); atomic_store(&up3, 0); atomic_store(&up4, 1);
    gateway_open(r, ports, NB, timeout); run(r, 0, vh_cases / 4, &ok, &errs, &local);
    server_open(&bw[3], r, ports[3], backend_frame); vh_usleep(1000000); atomic_store(&up3, 1); run(r, 2, vh_cases / 2, &ok, &errs, &local); run(r, 1, vh_cases / 4, &ok, &errs, &local); run(r, 2, vh_cases / 4, &ok, &errs, &local);
    uint64_t t0 = vh_now_us(); vs_close(gw); t0 = vh_now_us() - t0; if (t0 > 20000000) vh_viol("gw:destroy-slow", "destroying the gateway took %llu ms", (unsigned long long)t0 / 1000);
    for (int i = 0; i < NB; i++) { vh_count("backend connections", atomic_load(&bw[i].accepts)); server_close(&bw[i]); }
    int fd = 0, th = 0; for (int i = 0; i < 50; i++) { fd = count_dir("/proc/self/fd"); th = count_dir("/proc/self/task"); if (fd <= fd0 && th <= th0) break; vh_usleep(100000); }
    if (fd > fd0) vh_viol("gw:fd-leak", "%d descriptors before, %d after", fd0, fd); if (th > th0) vh_viol("gw:thread-leak", "%d threads before, %d after", th0, th);
    vh_evals(ok + errs + local); vh_count("backend answers forwarded", ok); vh_count("error answers", errs); vh_count("handled locally", local); for (long i = 0; i < ok; i++) vh_distinct(vh_seed * 1000003 + (uint64_t)i); vh_sample("%ld answers of backends, %ld errors, %ld without a route", ok, errs, local);
}
static void* stalled(void* a) { job* j = a; vh_rng r; vh_rng_seed(&r, j->seed); uint64_t took; int code; if (ask(&r, j->phase, ANSWER, &took, &code) == 1) vh_viol("gw:invented", "a backend that never accepts answered"); j->errs++; vs_thread_done(); return NULL; }
static void stall(vh_rng* r) {
    /* four backends whose accept queue is full: connecting to them takes until the connect timeout */
    int l[4], fill[4][8]; uint16_t ports[NB]; uint32_t timeout[NB] = { 60000, 60000, 60000, 60000, 60000 }; server_open(&bw[0], r, 0, backend_frame); ports[0] = bw[0].port;
    for (int i = 0; i < 4; i++) { l[i] = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t n = sizeof a; if (bind(l[i], (void*)&a, n) || listen(l[i], 0) || getsockname(l[i], (void*)&a, &n)) exit(3); ports[i + 1] = ntohs(a.sin_port); for (int k = 0; k < 8; k++) { fill[i][k] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!connect(fill[i][k], (void*)&a, n); } }
    vh_usleep(50000); gateway_open(r, ports, NB, timeout); pthread_t th[4]; job js[4]; for (int i = 0; i < 4; i++) { js[i] = (job){ .seed = vh_next(r), .phase = i + 1 }; pthread_create(&th[i], NULL, stalled, &js[i]); }
    vh_usleep(100000); uint64_t worst = 0; long ok = 0; for (int i = 0; i < 20; i++) { uint64_t took; int code; int o = ask(r, 0, ANSWER, &took, &code); if (o == 0) vh_viol("gw:failed", "a request for the backend that works failed"); if (took > worst) worst = took; ok += o == 1; }
    if (worst > 12000000) vh_viol("gw:held-up", "a request for a backend that works took %llu ms while others could not be reached", (unsigned long long)worst / 1000);
    for (int i = 0; i < 4; i++) pthread_join(th[i], NULL); vs_thread_done(); vs_close(gw); server_close(&bw[0]); for (int i = 0; i < 4; i++) { close(l[i]); for (int k = 0; k < 8; k++) close(fill[i][k]); }
    vh_evals(ok + 4); for (long i = 0; i < ok; i++) vh_distinct(vh_seed * 77 + (uint64_t)i); vh_count("answers while others stall", ok);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); vh_high_fds(&r); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "route")) route(&r); else if (!strcmp(vh_mode, "stall")) stall(&r); else forward(&r);
    return vh_finish();
}
