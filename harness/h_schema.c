/* Schema verdicts: P26. The verdict of a message against a schema is recomputed from the two texts by an independent
   reader: refused when either is not JSON or a required member is missing, accepted otherwise.
   seq: random histories over caches of all sizes with evictions, clears and reuse of the thread's arena in between
   mt:  the same from several short-lived threads sharing one small cache, with clears */
#include "vj.h"
#include <stdatomic.h>
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include "mcp_json.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_thread_cache.h"
#include "mcp_log.h"

/* names chosen so that many different schemas have equal multiplicative hashes */
static void name_of(vh_rng* r, sb* b) {
    switch (vh_below(r, 4)) {
    case 0: { int n = 1 + (int)vh_below(r, 3); for (int i = 0; i < n; i++) sb_s(b, vh_chance(r, 50) ? "Ez" : "FY"); break; }
    case 1: { static const char* w[] = { "name", "age", "id", "type", "required", "properties", "email" }; sb_s(b, w[vh_below(r, 7)]); break; }
    case 2: { static const char* w[] = { "na", "names", "NAME", "", "n\303\244me", "a b" }; sb_s(b, w[vh_below(r, 6)]); break; }
    default: sb_f(b, "p%d", (int)vh_below(r, 6));
    }
}
typedef struct { char* text; int bad; size_t n; char* req[40]; } schema;
static char* fin(sb* b) { sb_c(b, 0); return b->p; }
static void make_schema(vh_rng* r, schema* s) {
    sb b = {0}; memset(s, 0, sizeof *s); s->n = vh_chance(r, 6) ? 5 + vh_below(r, 36) : vh_below(r, 5);
    for (size_t i = 0; i < s->n; i++) { sb q = {0}; if (s->n > 5) sb_f(&q, "m%zu", i); else name_of(r, &q); s->req[i] = fin(&q); }
    int where = (int)vh_below(r, 3); sb_s(&b, vh_chance(r, 30) ? "{ " : "{");
    if (where != 0) { sb_s(&b, "\"type\":\"object\",\"properties\":{"); int np = (int)vh_below(r, 4); for (int i = 0; i < np; i++) { sb_f(&b, "%s\"q%d\":{\"type\":\"string\",\"required\":[\"zz\"]}", i ? "," : "", i); } sb_s(&b, "}"); }
    if (s->n || vh_chance(r, 50)) { if (where != 0) sb_c(&b, ','); sb_s(&b, "\"required\":["); for (size_t i = 0; i < s->n; i++) { if (i) sb_c(&b, ','); vj_write_str(s->req[i], strlen(s->req[i]), NULL, &b); } sb_c(&b, ']'); }
    else if (where == 0) sb_s(&b, "\"title\":\"t\"");
    if (where == 2) { sb_s(&b, ",\"title\":"); size_t m; char* t = vj_gen_str(r, &m); vj_write_str(t, m, NULL, &b); free(t); }
    sb_c(&b, '}'); if (vh_chance(r, 8)) { s->bad = 1; b.n -= 1; if (vh_chance(r, 50)) sb_s(&b, ",}"); }
    s->text = fin(&b);
}
static void free_schema(schema* s) { for (size_t i = 0; i < s->n; i++) free(s->req[i]); free(s->text); }
/* a message; returns the expected verdict */
static int make_message(vh_rng* r, const schema* s, char** text) {
    sb b = {0}; int ok = !s->bad; size_t skip = s->n && vh_chance(r, 45) ? vh_below(r, s->n) : (size_t)-1; int first = 1; sb_c(&b, '{');
    int extra = (int)vh_below(r, 4); size_t start = s->n ? vh_below(r, s->n) : 0;
    for (int i = 0; i < extra; i++) { sb_f(&b, "%s\"x%d\":", first ? "" : ",", i); first = 0; vj* v = vj_gen(r, 2); vj_write(v, NULL, &b); vj_free(v); }
    for (size_t k = 0; k < s->n; k++) { size_t i = (start + k) % s->n, same = 0; for (size_t j = 0; j < s->n; j++) if (skip != (size_t)-1 && !strcmp(s->req[i], s->req[skip])) same = 1;
        if (same) { if (vh_chance(r, 30)) { sb_s(&b, first ? "\"in\":{" : ",\"in\":{"); first = 0; vj_write_str(s->req[i], strlen(s->req[i]), NULL, &b); sb_s(&b, ":1}"); } continue; }
        size_t dup = 0; for (size_t j = 0; j < k; j++) if (!strcmp(s->req[(start + j) % s->n], s->req[i])) dup = 1; if (dup) continue;
        if (!first) sb_c(&b, ','); first = 0; vj_write_str(s->req[i], strlen(s->req[i]), vh_chance(r, 20) ? r : NULL, &b); sb_c(&b, ':');
        if (vh_chance(r, 15)) sb_s(&b, "\"John Doe\""); else if (vh_chance(r, 30)) sb_s(&b, "null"); else { vj* v = vj_gen(r, 2); vj_write(v, NULL, &b); vj_free(v); } }
    if (vh_chance(r, 15)) { sb_s(&b, first ? "\"name\": \"John Doe\"" : ",\"who\":{\"name\": \"John Doe\"}"); if (first) { first = 0; if (skip != (size_t)-1 && !strcmp(s->req[skip], "name")) skip = (size_t)-1; } }
    if (skip != (size_t)-1) ok = 0;
    sb_c(&b, '}'); if (vh_chance(r, 6)) { b.n--; ok = 0; }
    *text = fin(&b); return ok;
}
/* the generator's expectation is confirmed by reading both texts again */
static int verdict(const char* schema_text, const char* msg) {
    vj* s = vj_parse(schema_text, strlen(schema_text), NULL); vj* m = vj_parse(msg, strlen(msg), NULL); int ok = s && m; const vj* q = ok ? vj_get(s, "required") : NULL;
    if (q && q->t == VJ_ARR) for (size_t i = 0; i < q->cnt; i++) if (!vj_get(m, q->v[i]->s)) ok = 0;
    vj_free(s); vj_free(m); return ok;
}
static void ask(mcp_json_schema_cache_t* c, const schema* s, vh_rng* r, long* yes, long* no) {
    char* m; make_message(r, s, &m); int want = verdict(s->text, m);
    int rc = c ? mcp_json_schema_validate_cached(c, m, s->text) : mcp_json_validate_schema(m, s->text);
    if ((rc == 0) != want) vh_viol(want ? "schema:refused" : "schema:accepted", "%s against %s: returned %d, expected %s", m, s->text, rc, want ? "acceptance" : "refusal");
    if (want) ++*yes; else ++*no;
    free(m);
}
static void seq_case(vh_rng* r) {
    size_t cap = vh_chance(r, 70) ? 1 + vh_below(r, 6) : vh_below(r, 60); mcp_json_schema_cache_t* c = mcp_json_schema_cache_create(cap); if (!c) { vh_viol("schema:create", "no cache of %zu", cap); return; }
    int ns = 1 + (int)vh_below(r, 14); schema ss[16]; for (int i = 0; i < ns; i++) make_schema(r, &ss[i]);
    int n = 10 + (int)vh_below(r, 150); long yes = 0, no = 0; uint64_t h = 0;
    for (int i = 0; i < n && vh_viol_count() < 5; i++) {
        int k = (int)vh_below(r, (uint64_t)ns); ask(vh_chance(r, 92) ? c : NULL, &ss[k], r, &yes, &no); h = vh_hash(&k, sizeof k, h);
        if (vh_chance(r, 10)) mcp_arena_reset_current_thread();   /* what a request loop does between messages */
        if (vh_chance(r, 2)) { mcp_json_schema_cache_clear(c); h++; }
        size_t size = 0, cp = 0, a, b; if (vh_chance(r, 20) && (mcp_json_schema_cache_get_stats(c, &size, &cp, &a, &b) != 0 || (cap && size > cap))) vh_viol("schema:size", "a cache for %zu schemas holds %zu", cap, size);
    }
    mcp_json_schema_cache_destroy(c);
    vh_evals(n); vh_distinct(vh_hash(&yes, sizeof yes, h)); vh_count("accepted", yes); vh_count("refused", no);
    vh_sample("cache for %zu, %d schemas, %d messages: %ld accepted, %ld refused; one schema %.80s", cap, ns, n, yes, no, ss[0].text);
    for (int i = 0; i < ns; i++) free_schema(&ss[i]);
}
typedef struct { mcp_json_schema_cache_t* c; schema* ss; int ns, n, clears; uint64_t seed; long yes, no; } wk;
static void* worker(void* a) {
    wk* w = a; vh_rng r; vh_rng_seed(&r, w->seed); mcp_arena_init_current_thread(16384);
    for (int i = 0; i < w->n && vh_viol_count() < 5; i++) { ask(vh_chance(&r, 80) ? w->c : NULL, &w->ss[vh_below(&r, (uint64_t)w->ns)], &r, &w->yes, &w->no); if (vh_chance(&r, 20)) mcp_arena_reset_current_thread(); if (w->clears && vh_chance(&r, 5)) mcp_json_schema_cache_clear(w->c); }
    mcp_arena_destroy_current_thread(); if (mcp_thread_cache_is_initialized()) mcp_thread_cache_cleanup(); return NULL;
}
static void mt_case(vh_rng* r) {
    size_t cap = 1 + vh_below(r, 5); mcp_json_schema_cache_t* c = mcp_json_schema_cache_create(cap); if (!c) return;
    int ns = 1 + (int)vh_below(r, 10); schema ss[16]; for (int i = 0; i < ns; i++) make_schema(r, &ss[i]);
    int clears = vh_chance(r, 40), total = 0; long yes = 0, no = 0;
    for (int round = 0; round < 3; round++) { int nt = 2 + (int)vh_below(r, 5); wk ws[8]; pthread_t th[8]; memset(ws, 0, sizeof ws);
        for (int i = 0; i < nt; i++) { ws[i] = (wk){ c, ss, ns, 40, clears, vh_next(r), 0, 0 }; pthread_create(&th[i], NULL, worker, &ws[i]); }
        for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); yes += ws[i].yes; no += ws[i].no; total += 40; } }
    size_t size = 0, cp, a, b; if (mcp_json_schema_cache_get_stats(c, &size, &cp, &a, &b) == 0 && size > cap) vh_viol("schema:size", "a cache for %zu schemas holds %zu", cap, size);
    mcp_json_schema_cache_destroy(c); uint64_t h = vh_hash(&yes, sizeof yes, vh_hash(&a, sizeof a, b));
    vh_evals(total); vh_distinct(h); vh_count("accepted", yes); vh_count("refused", no); vh_count("thread lives", total / 40);
    vh_sample("cache for %zu, %d schemas shared by %d threads: %ld accepted, %ld refused", cap, ns, total / 40, yes, no);
    for (int i = 0; i < ns; i++) free_schema(&ss[i]);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_FATAL); vh_rng r; vh_rng_seed(&r, vh_seed); mcp_arena_init_current_thread(65536);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) { if (!strcmp(vh_mode, "seq")) seq_case(&r); else if (!strcmp(vh_mode, "mt")) mt_case(&r); else return 2; }
    mcp_arena_destroy_current_thread();
    return vh_finish();
}
