// URI templates: expansion, matching and extraction against each other and a reference; access rules against a model.
// USE: vsrv
#include "vsrv.h"
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <pthread.h>
#include "mcp_template.h"
#include "mcp_template_optimized.h"
#include "mcp_template_security.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_log.h"

/* ---- templates whose meaning is known because they were put together here ---- */
enum { T_ANY, T_STRING, T_INT, T_FLOAT, T_BOOL, T_PATTERN };
typedef struct { int type, optional; char name[128]; char* def; char pre[80], suf[80]; int star; /* 0: literal */ } par;
typedef struct { int n; par p[6]; char st[7][24]; sb text; } tmpl;
typedef struct { int given; int jt; /* VJ_* of the value handed in */ char* s; double d; int b; } val;

static const char* STATICS[] = { "/", "/posts/", "::", "~x~", "&k=", "?", "/a/b/", "/q?z=", ";", "/comments/", "//", ",", "@", "/x", "aa" };
static void gen_static(vh_rng* r, char* o, int first) {
    if (first) { sprintf(o, "%s", (const char*[]){ "example://", "db:", "file:///", "", "a" }[vh_below(r, 5)]); return; }
    strcpy(o, STATICS[vh_below(r, sizeof STATICS / sizeof *STATICS)]);
}
static void word(vh_rng* r, char* o, int max) {
    static const char A[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.";
    int n = 1 + (int)vh_below(r, (uint64_t)max); for (int i = 0; i < n; i++) o[i] = A[vh_below(r, sizeof A - 1)]; o[n] = 0;
}
static int good_int(vh_rng* r) { switch (vh_below(r, 4)) { case 0: return (int)vh_below(r, 10); case 1: return (int)vh_next(r); case 2: return vh_chance(r, 50) ? 2147483647 : -2147483647 - 1; default: return (int)vh_below(r, 200001) - 100000; } }
static double good_float(vh_rng* r) { switch (vh_below(r, 5)) { case 0: return (double)good_int(r); case 1: return (double)((int64_t)vh_next(r) >> 20) / 1024.0; case 2: return ldexp((double)(int64_t)vh_next(r), (int)vh_below(r, 100) - 100); case 3: return (double)vh_below(r, 1000) / 10.0; default: return -(double)vh_below(r, 1000000) / 997.0; } }
static char* sdup(const char* s) { return strdup(s); }
static int no_clash(const char* v, const char* st) {      /* the text after a value is first found right after it */
    if (!*st) return 1;
    sb b = {0}; sb_s(&b, v); sb_s(&b, st); sb_c(&b, 0);
    int ok = strstr(b.p, st) == b.p + strlen(v); sb_free(&b); return ok;
}
static char* gen_text(vh_rng* r, const char* st, int max) {
    static const char* ODD[] = { " ", "%20", "\xc3\xa9", "+", "=", "{", "}", "\"", "\\", "\xe2\x82\xac", "#", "/", ":" };
    for (;;) {
        sb b = {0}; int n = 1 + (int)vh_below(r, (uint64_t)(vh_chance(r, 90) ? 12 : max));
        while ((int)b.n < n) { if (vh_chance(r, 15)) sb_s(&b, ODD[vh_below(r, sizeof ODD / sizeof *ODD)]); else { char w[8]; word(r, w, 3); sb_s(&b, w); } }
        sb_c(&b, 0);
        if (strlen(b.p) <= 250 && no_clash(b.p, st)) return b.p;
        sb_free(&b);
    }
}
static char* pattern_text(vh_rng* r, const par* p, const char* st) {
    for (int k = 0; k < 50; k++) {
        char b[400]; char m[20] = ""; if (p->star && vh_chance(r, 80)) word(r, m, 10);
        snprintf(b, sizeof b, "%s%s%s", p->pre, m, p->suf);
        if (*b && no_clash(b, st)) return sdup(b);
    }
    return NULL;
}
static void gen_tmpl(vh_rng* r, tmpl* t) {
    memset(t, 0, sizeof *t);
    t->n = (int)vh_below(r, 6); gen_static(r, t->st[0], 1);
    sb_s(&t->text, t->st[0]);
    for (int i = 0; i < t->n; i++) {
        par* p = &t->p[i];
        p->type = (int)vh_below(r, 6); p->optional = vh_chance(r, 35);
        sprintf(p->name, "%c%d", 'a' + (int)vh_below(r, 26), i);
        if (vh_chance(r, 5)) { size_t n = 30 + vh_below(r, 30); size_t k = strlen(p->name); memset(p->name + k, 'n', n - k); p->name[n] = 0; }
        if (i + 1 < t->n || vh_chance(r, 40)) gen_static(r, t->st[i + 1], 0);
        sb_f(&t->text, "{%s", p->name);
        if (p->type == T_PATTERN) {
            p->star = vh_chance(r, 80);
            if (vh_chance(r, 80)) word(r, p->pre, vh_chance(r, 20) ? 38 : 6);
            if (p->star && vh_chance(r, 50)) word(r, p->suf, vh_chance(r, 20) ? 38 : 6);
            if (p->star && p->pre[0] && vh_chance(r, 25)) { size_t n = strlen(p->pre); strcpy(p->suf, p->pre + n - 1 - vh_below(r, n)); }   /* the end begins inside the start */
            if (!p->pre[0] && !p->suf[0] && !p->star) strcpy(p->pre, "lit");
        }
        const char* st = t->st[i + 1];
        int dflt = p->optional && vh_chance(r, 50);
        if (dflt) {
            char b[64];
            switch (p->type) {
            case T_INT: sprintf(b, "%d", good_int(r)); p->def = sdup(b); break;
            case T_FLOAT: sprintf(b, "%.1f", (double)vh_below(r, 1000) / 10); p->def = sdup(b); break;
            case T_BOOL: p->def = sdup((const char*[]){ "true", "false", "1", "0" }[vh_below(r, 4)]); break;
            case T_PATTERN: p->def = pattern_text(r, p, st); break;
            default: do word(r, b, 10); while (!no_clash(b, st)); p->def = sdup(b);
            }
        }
        int mark_first = p->optional && !p->def && p->type != T_ANY && vh_chance(r, 30);    /* {name?:type} */
        if (mark_first) sb_c(&t->text, '?');
        switch (p->type) { case T_STRING: sb_s(&t->text, ":string"); break; case T_INT: sb_s(&t->text, ":int"); break; case T_FLOAT: sb_s(&t->text, ":float"); break; case T_BOOL: sb_s(&t->text, ":bool"); break;
        case T_PATTERN: sb_f(&t->text, ":pattern:%s%s%s", p->pre, p->star ? "*" : "", p->suf); break; }
        if (p->def) sb_f(&t->text, "=%s", p->def); else if (p->optional && !mark_first) sb_c(&t->text, '?');
        sb_f(&t->text, "}%s", st);
    }
    sb_c(&t->text, 0);
}
static void tmpl_free(tmpl* t) { for (int i = 0; i < t->n; i++) free(t->p[i].def); sb_free(&t->text); }
/* a value the parameter admits, as JSON to hand in; 0 if none could be found */
static int gen_val(vh_rng* r, const par* p, const char* st, val* v) {
    memset(v, 0, sizeof *v); v->given = 1;
    if (p->optional && vh_chance(r, 40)) { v->given = 0; return 1; }
    switch (p->type) {
    case T_INT: v->d = good_int(r); if (vh_chance(r, 70)) { v->jt = VJ_NUM; } else { char b[20]; sprintf(b, "%d", (int)v->d); v->jt = VJ_STR; v->s = sdup(b); } break;
    case T_FLOAT: v->d = good_float(r); if (!(fabs(v->d) < 3e38)) v->d = 1.5; if (vh_chance(r, 70)) v->jt = VJ_NUM; else { char b[40]; sprintf(b, "%.17g", v->d); v->jt = VJ_STR; v->s = sdup(b); } break;
    case T_BOOL: v->b = vh_chance(r, 50); if (vh_chance(r, 50)) v->jt = VJ_BOOL; else { v->jt = VJ_STR; v->s = sdup(v->b ? (vh_chance(r, 50) ? "true" : "1") : (vh_chance(r, 50) ? "false" : "0")); } break;
    case T_PATTERN: v->jt = VJ_STR; v->s = pattern_text(r, p, st); if (!v->s) return 0; break;
    default:
        if (vh_chance(r, 15)) { v->jt = VJ_NUM; v->d = vh_chance(r, 50) ? (double)good_int(r) : good_float(r); } else { v->jt = VJ_STR; v->s = gen_text(r, st, 240); }
    }
    return 1;
}
/* text that the parameter must refuse, not clashing with what follows; NULL if none */
static char* gen_bad(vh_rng* r, const par* p, const char* st) {
    static const char* I[] = { "12x", "abc", "99999999999", "-2147483649", "2147483648", "1.5", "0x10", "--1", "1 2", "9223372036854775808000" };
    static const char* F[] = { "1.2.3", "abc", "1e999", "-1e999", "1,5x", "--2", "1e", "3.4.", "12f" };
    static const char* B[] = { "yes", "TRUE", "2", "tru", "truee", "00", "no" };
    char b[300];
    switch (p->type) {
    case T_INT: strcpy(b, I[vh_below(r, sizeof I / sizeof *I)]); break;
    case T_FLOAT: strcpy(b, F[vh_below(r, sizeof F / sizeof *F)]); break;
    case T_BOOL: strcpy(b, B[vh_below(r, sizeof B / sizeof *B)]); break;
    case T_PATTERN: {
        if (!p->pre[0] && !p->suf[0]) return NULL;
        size_t np = strlen(p->pre), ns = strlen(p->suf);
        if (p->star && ns && ns <= np && !strcmp(p->pre + np - ns, p->suf) && vh_chance(r, 60)) strcpy(b, p->pre);   /* both ends found, overlapping */
        else if (p->star) { if (p->pre[0] && vh_chance(r, 60)) { strcpy(b, p->pre); b[strlen(b) - 1] ^= 1; strcat(b, "x"); strcat(b, p->suf); } else if (p->suf[0]) { sprintf(b, "%sx%s", p->pre, p->suf); b[strlen(b) - 1] ^= 1; } else return NULL; }
        else { strcpy(b, p->pre); if (vh_chance(r, 50) && strlen(b) > 1) b[strlen(b) - 1] = 0; else strcat(b, "y"); }
        break;
    }
    default: if (p->optional) return NULL; b[0] = 0;
    }
    if (strpbrk(b, "{}/")) return NULL;
    return no_clash(b, st) ? sdup(b) : NULL;
}
static mcp_json_t* build(const tmpl* t, const val* v) {
    mcp_json_t* o = mcp_json_object_create();
    for (int i = 0; i < t->n; i++) if (v[i].given) mcp_json_object_set_property(o, t->p[i].name, v[i].jt == VJ_NUM ? mcp_json_number_create(v[i].d) : v[i].jt == VJ_BOOL ? mcp_json_boolean_create(v[i].b) : mcp_json_string_create(v[i].s));
    return o;
}
static vj* to_vj(mcp_json_t* o) {
    char* s = mcp_json_stringify(o); if (!s) return NULL;
    vj_info in; vj* v = vj_parse(s, strlen(s), &in); free(s); return v;
}
static __thread char why[300];
/* the parameters extracted are the ones handed in */
static int same(const tmpl* t, const val* v, const vj* x) {
    size_t expect = 0;
    for (int i = 0; i < t->n; i++) {
        const par* p = &t->p[i]; vj* g = vj_get(x, p->name); if (g) expect++;
        snprintf(why, sizeof why, "parameter %s", p->name);
        if (!v[i].given) {
            if (!p->def) { if (g && !(g->t == VJ_STR && g->sn == 0)) return 0; continue; }
            if (!g) return 0;
            switch (p->type) {
            case T_INT: case T_FLOAT: if (g->t != VJ_NUM || g->n != strtod(p->def, NULL)) return 0; break;
            case T_BOOL: if (g->t != VJ_BOOL || g->b != (!strcmp(p->def, "true") || !strcmp(p->def, "1"))) return 0; break;
            default: if (g->t != VJ_STR || strcmp(g->s, p->def)) return 0;
            }
            continue;
        }
        if (!g) return 0;
        switch (p->type) {
        case T_INT: case T_FLOAT: if (g->t != VJ_NUM || g->n != v[i].d) return 0; break;
        case T_BOOL: if (g->t != VJ_BOOL || g->b != v[i].b) return 0; break;
        default: if (g->t != VJ_STR) return 0; if (v[i].jt == VJ_NUM ? strtod(g->s, NULL) != v[i].d : strcmp(g->s, v[i].s)) return 0;
        }
    }
    snprintf(why, sizeof why, "number of parameters");
    return expect == vj_size(x);
}
static long n_trip, n_bad, n_verdict, n_match;
static void viol(const char* sig, const char* t, const char* u, const char* more) { vh_viol(sig, "template \"%.300s\" URI \"%.300s\": %s", t, u ? u : "(none)", more); }
/* all four verdicts agree; returns the common one */
static int verdict(const char* u, const char* t, vj** out) {
    int a = mcp_template_matches(u, t) != 0, b = mcp_template_matches_optimized(u, t) != 0;
    mcp_json_t *x = mcp_template_extract_params(u, t), *y = mcp_template_extract_params_optimized(u, t);
    vj *vx = x ? to_vj(x) : NULL, *vy = y ? to_vj(y) : NULL;
    if (a != b) viol("template:fast-differs", t, u, a ? "the plain matcher accepts, the fast one refuses" : "the fast matcher accepts, the plain one refuses");
    else if (a != (x != NULL)) viol("template:match-extract", t, u, a ? "matches but nothing is extracted" : "parameters extracted although it does not match");
    else if (b != (y != NULL)) viol("template:match-extract-fast", t, u, b ? "matches but nothing is extracted (fast)" : "parameters extracted although it does not match (fast)");
    else if (x && (!vx || !vy || !vj_eq(vx, vy))) viol("template:fast-params", t, u, "plain and fast extraction give different parameters");
    if (x) mcp_json_destroy(x);
    if (y) mcp_json_destroy(y);
    vj_free(vy); if (out) *out = vx; else vj_free(vx);
    return a;
}
static uint64_t trip(vh_rng* r, tmpl* t) {
    val v[6]; int ok = 1; int made = 0;
    for (int i = 0; i < t->n && ok; i++) { ok = gen_val(r, &t->p[i], t->st[i + 1], &v[i]); made++; }
    uint64_t h = 0;
    if (ok) {
        mcp_json_t* o = build(t, v);
        char* u = mcp_template_expand(t->text.p, o);
        if (!u) { char* s = mcp_json_stringify(o); viol("template:expand", t->text.p, NULL, s); free(s); }
        else {
            vj* x = NULL; n_trip++;
            if (!verdict(u, t->text.p, &x)) viol("template:roundtrip", t->text.p, u, "the expansion does not match its template");
            else if (!same(t, v, x)) viol("template:roundtrip-value", t->text.p, u, why);
            vj_free(x); h = vh_hash(u, strlen(u), 5);
            if (n_trip < 4) vh_sample("%s <=> %s", t->text.p, u);
            free(u);
        }
        mcp_json_destroy(o);
        /* one value replaced by one its type refuses */
        if (t->n && vh_chance(r, 50)) {
            int k = (int)vh_below(r, (uint64_t)t->n); char* bad = gen_bad(r, &t->p[k], t->st[k + 1]);
            if (bad) {
                sb b = {0}; sb_s(&b, t->st[0]); int fine = 1;
                for (int i = 0; i < t->n; i++) {
                    const char* s; char num[64];
                    if (i == k) s = bad; else if (!v[i].given) s = t->p[i].def ? t->p[i].def : ""; else if (v[i].jt == VJ_STR) s = v[i].s; else if (v[i].jt == VJ_BOOL) s = v[i].b ? "true" : "false"; else { snprintf(num, sizeof num, "%.17g", v[i].d); s = num; }
                    if (!*s && !t->p[i].optional && i != k) fine = 0;
                    sb_s(&b, s); sb_s(&b, t->st[i + 1]);
                }
                sb_c(&b, 0);
                if (fine && verdict(b.p, t->text.p, NULL)) viol("template:bad-value", t->text.p, b.p, "accepted although a parameter is not of its type");
                n_bad++;
                sb_free(&b); free(bad);
            }
        }
    }
    for (int i = 0; i < made; i++) free(v[i].s);
    return h;
}
/* arbitrary template text and URI: only the agreement of the four functions is asked for */
static void any_text(vh_rng* r, sb* b, int tmplish) {
    static const char* T[] = { "{a}", "{b?}", "{c:int}", "{d:int=5}", "{e:float?}", "{f:bool}", "{g:pattern:x*}", "{", "}", "{}", "{a{b}", "{?}", "{:int}", "{=}", "{a:int?=3}", "{h?=q}", "{i?x}", "{a:pattern:*}", "{z:weird}", "{a}{b}" };
    static const char* U[] = { "a", "12", "true", "/", "//", "-5", "1.5", "xyz", "::", "", "abc", "{a}", "x", " ", "nan", "inf", "+3", "0x1" };
    int n = (int)vh_below(r, 8);
    while (n--) { if (tmplish && vh_chance(r, 60)) sb_s(b, T[vh_below(r, sizeof T / sizeof *T)]); else if (vh_chance(r, 50)) sb_s(b, U[vh_below(r, sizeof U / sizeof *U)]); else sb_s(b, STATICS[vh_below(r, sizeof STATICS / sizeof *STATICS)]); }
    if (vh_chance(r, 2)) { size_t k = 200 + vh_below(r, 200); if (tmplish && vh_chance(r, 50)) sb_c(b, '{'); while (k--) sb_c(b, 'L'); if (tmplish && vh_chance(r, 70)) sb_c(b, '}'); }
    sb_c(b, 0);
}
static void arena(void) { mcp_arena_init_current_thread(64 * 1024); }
static void arena_reset(void) { mcp_arena_destroy_current_thread(); mcp_arena_init_current_thread(64 * 1024); }
static void run_trip(void) {
    arena();
    enum { POOL = 200 }; static tmpl pool[POOL];
    vh_rng r; vh_rng_seed(&r, vh_seed * 31337 + 1);
    for (int i = 0; i < POOL; i++) gen_tmpl(&r, &pool[i]);
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng_seed(&r, vh_seed * 31337 + 17 * (uint64_t)i + 5);
        tmpl* t = &pool[vh_below(&r, POOL)];
        if (vh_chance(&r, 20)) { tmpl_free(t); gen_tmpl(&r, t); }
        uint64_t h = trip(&r, t); vh_evals(1); if (h) vh_distinct(h);
        if (i % 500 == 499) arena_reset();
        if (vh_chance(&r, 1)) mcp_template_cache_cleanup();
    }
    vh_count("expansions read back", n_trip); vh_count("URIs with a refused value", n_bad);
    for (int i = 0; i < POOL; i++) tmpl_free(&pool[i]);
    mcp_template_cache_cleanup(); mcp_arena_destroy_current_thread();
}
static void run_any(void) {
    arena();
    enum { POOL = 300 }; static sb pool[POOL]; vh_rng r; vh_rng_seed(&r, vh_seed * 917 + 3);
    for (int i = 0; i < POOL; i++) any_text(&r, &pool[i], 1);
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng_seed(&r, vh_seed * 917 + 31 * (uint64_t)i + 11);
        int k = (int)(vh_chance(&r, 60) ? vh_below(&r, 30) : vh_below(&r, POOL));
        sb u = {0}; int same_text = vh_chance(&r, 10);
        if (same_text) { sb_s(&u, pool[k].p); sb_c(&u, 0); }
        else {
            /* the template with its parameters filled in one way or another, so that many match */
            const char* q = pool[k].p; while (*q) { if (*q == '{' && strchr(q, '}')) { static const char* V[] = { "", "1", "true", "x1", "abc", "-7", "2.5", "a/b", "0" }; sb_s(&u, V[vh_below(&r, 9)]); q = strchr(q, '}') + 1; } else { if (!vh_chance(&r, 2)) sb_c(&u, *q); q++; } }
            if (vh_chance(&r, 10)) sb_s(&u, "/tail");
            sb_c(&u, 0);
            if (vh_chance(&r, 20)) { sb_free(&u); any_text(&r, &u, 0); }
        }
        int m = verdict(u.p, pool[k].p, NULL); n_verdict++; n_match += m; vh_evals(1);
        vh_distinct(vh_hash(u.p, u.n, vh_hash(pool[k].p, pool[k].n, 1)));
        if (n_verdict < 3) vh_sample("%s vs %s: %d", pool[k].p, u.p, m);
        sb_free(&u);
        if (i % 500 == 499) arena_reset();
    }
    vh_count("verdicts compared", n_verdict); vh_count("of which matches", n_match);
    for (int i = 0; i < POOL; i++) sb_free(&pool[i]);
    mcp_template_cache_cleanup(); mcp_arena_destroy_current_thread();
}
/* ---- the same from several threads at once ---- */
enum { MTP = 160 };
static tmpl mtpool[MTP]; static char* mturi[MTP][4]; static int mtv[MTP][4];
static _Atomic(long) mt_ops; static _Atomic(uint64_t) mt_sig;
typedef struct { uint64_t seed; int n; int clean; } mtarg;
static void* mt_thread(void* a) {
    mtarg* m = a; vh_rng r; vh_rng_seed(&r, m->seed); arena(); uint64_t h = 0;
    for (int i = 0; i < m->n && !vh_viol_count(); i++) {
        int k = (int)vh_below(&r, MTP), j = (int)vh_below(&r, 4);
        if (mturi[k][j]) {
            int g = vh_chance(&r, 50) ? mcp_template_matches_optimized(mturi[k][j], mtpool[k].text.p) != 0 : -1;
            if (g < 0) { mcp_json_t* x = mcp_template_extract_params_optimized(mturi[k][j], mtpool[k].text.p); g = x != NULL; if (x) mcp_json_destroy(x); }
            if (g != mtv[k][j]) viol("template:concurrent", mtpool[k].text.p, mturi[k][j], "the verdict changes when other threads match too");
            h = h * 31 + (uint64_t)(k * 4 + j);
        }
        if (vh_chance(&r, 20)) {
            val v[6]; int ok = 1, made = 0; tmpl* t = &mtpool[k];
            for (int q = 0; q < t->n && ok; q++) { ok = gen_val(&r, &t->p[q], t->st[q + 1], &v[q]); made++; }
            if (ok) { mcp_json_t* o = build(t, v); char* u = mcp_template_expand(t->text.p, o); if (u) { mcp_json_t* x = mcp_template_extract_params_optimized(u, t->text.p); vj* vx = x ? to_vj(x) : NULL; if (!vx || !same(t, v, vx)) viol("template:concurrent-roundtrip", t->text.p, u, why); vj_free(vx); if (x) mcp_json_destroy(x); free(u); } else viol("template:concurrent-expand", t->text.p, NULL, "refused"); mcp_json_destroy(o); }
            for (int q = 0; q < made; q++) free(v[q].s);
        }
        if (m->clean && vh_chance(&r, 1)) mcp_template_cache_cleanup();
        if (i % 200 == 199) arena_reset();
        if (vh_chance(&r, 5)) vh_yield_noise(&r);
    }
    mt_ops += m->n; mt_sig ^= h; mcp_arena_destroy_current_thread(); return NULL;
}
static void run_mt(void) {
    for (long c = 0; c < vh_cases && !vh_viol_count(); c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 4243 + (uint64_t)c); arena();
        for (int k = 0; k < MTP; k++) {
            gen_tmpl(&r, &mtpool[k]);
            for (int j = 0; j < 4; j++) {
                val v[6]; int ok = 1, made = 0; tmpl* t = &mtpool[k]; mturi[k][j] = NULL;
                for (int q = 0; q < t->n && ok; q++) { ok = gen_val(&r, &t->p[q], t->st[q + 1], &v[q]); made++; }
                if (ok) { mcp_json_t* o = build(t, v); mturi[k][j] = mcp_template_expand(t->text.p, o); mcp_json_destroy(o); }
                for (int q = 0; q < made; q++) free(v[q].s);
                if (mturi[k][j]) { if (j == 3 && mturi[k][j][0]) mturi[k][j][strlen(mturi[k][j]) - 1] ^= 1; mtv[k][j] = mcp_template_matches(mturi[k][j], t->text.p) != 0; }
            }
        }
        mcp_arena_destroy_current_thread();
        int nt = 2 + (int)vh_below(&r, 5); pthread_t th[8]; mtarg a[8]; mt_sig = 0;
        for (int i = 0; i < nt; i++) { a[i] = (mtarg){ vh_next(&r), 300 + (int)vh_below(&r, 400), i == 0 && vh_chance(&r, 50) }; pthread_create(&th[i], NULL, mt_thread, &a[i]); }
        for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
        for (int k = 0; k < MTP; k++) { tmpl_free(&mtpool[k]); for (int j = 0; j < 4; j++) free(mturi[k][j]); }
        mcp_template_cache_cleanup();
        vh_evals(1); vh_distinct(mt_sig);
    }
    vh_count("concurrent template operations", mt_ops);
}

/* ---- access rules ---- */
#define NT 40
static const char* ROLES[] = { "admin", "user", "guest", "anonymous", "authenticated_client", "adm", "administrator", "", "Admin" };
enum { NROLE = 9 };
typedef struct { int has_acl; int role[NROLE]; int star; int validator; /* 0 none, else which */ } rule;
static int val_calls[32];
/* validator k refuses values whose hash is divisible by k + 2 */
static int accepts(int k, const char* x) { return vh_hash(x, strlen(x), 99) % (uint64_t)(k + 1) != 0; }
static bool check_val(const char* t, const mcp_json_t* params, void* ud) {
    (void)t; int k = (int)(intptr_t)ud; val_calls[k]++;
    mcp_json_t* x = mcp_json_object_get_property((mcp_json_t*)params, "x"); const char* s;
    return x && mcp_json_get_string(x, &s) == 0 && s && accepts(k, s);
}
static int allowed(const rule* q, const char* role, int dflt, const char* x) {
    if (q->has_acl && !q->star) { int ok = 0; for (int i = 0; i < NROLE; i++) if (q->role[i] && role && !strcmp(ROLES[i], role)) ok = 1; if (!ok) return 0; }
    int k = q->validator ? q->validator : dflt;
    return !k || accepts(k, x);
}
static void gen_roles(vh_rng* r, rule* q, const char** out, size_t* n) {
    *n = 0; q->has_acl = 1; int c = 1 + (int)vh_below(r, 4);
    for (int i = 0; i < c; i++) { if (vh_chance(r, 7)) { out[(*n)++] = "*"; q->star = 1; } else { int k = (int)vh_below(r, NROLE); out[(*n)++] = ROLES[k]; q->role[k] = 1; } }
}
static void run_rules(void) {
    long asked = 0, granted = 0;
    for (long c = 0; c < vh_cases && !vh_viol_count(); c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 771 + (uint64_t)c); arena();
        mcp_template_security_t* s = mcp_template_security_create(); rule ru[NT] = {{0}}; int nt = vh_chance(&r, 40) ? NT : 12, dflt = 0; uint64_t h = 0;
        char name[NT][40]; for (int i = 0; i < NT; i++) snprintf(name[i], sizeof name[i], i % 4 == 0 ? "t%d://{x}" : i % 4 == 1 ? "t%d://{x}/a" : i % 4 == 2 ? "t%d:{x:string}" : "t%d/{x?}", i / 2);
        int steps = 5 + (int)vh_below(&r, nt > 12 ? 400 : 80);
        for (int k = 0; k < steps && !vh_viol_count(); k++) {
            int i = (int)vh_below(&r, (uint64_t)nt); int op = (int)vh_below(&r, 10);
            if (op == 0) { const char* ro[4]; size_t n; gen_roles(&r, &ru[i], ro, &n); if (mcp_template_security_add_acl(s, name[i], ro, n) != 0) vh_viol("rules:add", "access list refused"); }
            else if (op == 1) { ru[i].validator = 1 + (int)vh_below(&r, 20); if (mcp_template_security_set_validator(s, name[i], check_val, (void*)(intptr_t)ru[i].validator) != 0) vh_viol("rules:validator", "validator refused"); }
            else if (op == 2 && vh_chance(&r, 30)) { dflt = 1 + (int)vh_below(&r, 20); mcp_template_security_set_default_validator(s, check_val, (void*)(intptr_t)dflt); }
            else {
                char x[12]; sprintf(x, "v%d", (int)vh_below(&r, 500)); const char* role = vh_chance(&r, 5) ? NULL : ROLES[vh_below(&r, NROLE)];
                mcp_json_t* p = mcp_json_object_create(); mcp_json_object_set_property(p, "x", mcp_json_string_create(x));
                int got = mcp_template_security_check_access(s, name[i], role, p), want = allowed(&ru[i], role, dflt, x);
                int gv = mcp_template_security_validate_params(s, name[i], p), wv = allowed(&(rule){ .validator = ru[i].validator }, NULL, dflt, x);
                mcp_json_destroy(p); asked++; granted += got; vh_evals(1); h = h * 131 + (uint64_t)(i * 4 + got * 2 + gv);
                if (got != want) vh_viol("rules:access", "template %s, role %s, value %s: access is %s, the rules say %s (list %d, validator %d, default %d)", name[i], role ? role : "(none)", x, got ? "granted" : "refused", want ? "granted" : "refused", ru[i].has_acl, ru[i].validator, dflt);
                if (gv != wv) vh_viol("rules:params", "template %s, value %s: parameters are %s, the validator says otherwise", name[i], x, gv ? "accepted" : "refused");
            }
        }
        mcp_template_security_destroy(s); mcp_arena_destroy_current_thread(); vh_distinct(h);
        if (c == 0) vh_sample("%ld access questions, %ld granted", asked, granted);
    }
    vh_count("access questions", asked); vh_count("granted", granted);
}
/* ---- the rules as a client of a server meets them ---- */
static _Atomic(int) handled;
static mcp_error_code_t th(mcp_server_t* s, const char* uri, void* ud, mcp_content_item_t*** c, size_t* n, char** e) {
    (void)s; (void)e; handled++;
    mcp_content_item_t* it = calloc(1, sizeof *it); it->type = MCP_CONTENT_TYPE_TEXT; it->mime_type = strdup("text/plain");
    char b[200]; snprintf(b, sizeof b, "%d|%s", (int)(intptr_t)ud, uri); it->data = strdup(b); it->data_size = strlen(b) + 1;
    *c = malloc(sizeof **c); (*c)[0] = it; *n = 1; return MCP_ERROR_NONE;
}
static void run_server(void) {
    long asked = 0, granted = 0;
    for (long c = 0; c < vh_cases && !vh_viol_count(); c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 8881 + (uint64_t)c);
        vs_cfg cf; memset(&cf, 0, sizeof cf); int keyed = vh_chance(&r, 40); cf.key = keyed ? "k-1234" : NULL; cf.no_res = 0; cf.rl_max = 0;
        vs_world* w = vs_open(&r, &cf, NULL); rule ru[NT] = {{0}}; int nt = vh_chance(&r, 40) ? NT : 12, dflt = 0, any = 0; uint64_t h = 0;
        const char* role = keyed ? "authenticated_client" : "anonymous";
        char name[NT][40]; for (int i = 0; i < nt; i++) { snprintf(name[i], sizeof name[i], "vt%d://{x}%s", i, i % 2 ? "/leaf" : ""); if (mcp_server_register_template_handler(w->srv, name[i], th, (void*)(intptr_t)i) != 0) vh_viol("rules:register", "template handler refused"); }
        int steps = 10 + (int)vh_below(&r, nt > 12 ? 300 : 60);
        for (int k = 0; k < steps && !vh_viol_count(); k++) {
            int i = (int)vh_below(&r, (uint64_t)nt); int op = (int)vh_below(&r, 12);
            if (op == 0) { const char* ro[4]; size_t n; gen_roles(&r, &ru[i], ro, &n); mcp_server_add_template_acl(w->srv, name[i], ro, n); any = 1; }
            else if (op == 1) { ru[i].validator = 1 + (int)vh_below(&r, 20); mcp_server_set_template_validator(w->srv, name[i], check_val, (void*)(intptr_t)ru[i].validator); any = 1; }
            else if (op == 2 && vh_chance(&r, 30)) { dflt = 1 + (int)vh_below(&r, 20); mcp_server_set_default_template_validator(w->srv, check_val, (void*)(intptr_t)dflt); any = 1; }
            else {
                char x[12]; sprintf(x, "v%d", (int)vh_below(&r, 6)); char q[300];
                snprintf(q, sizeof q, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"read_resource\",\"params\":{\"uri\":\"vt%d://%s%s\"%s}}", k + 1, i, x, i % 2 ? "/leaf" : "", keyed ? ",\"apiKey\":\"k-1234\"" : "");
                int h0 = handled, err = 0; char* a = vs_send(w, q, strlen(q), &err);
                char body[100]; snprintf(body, sizeof body, "\"%d|vt%d://%s", i, i, x);
                int want = allowed(&ru[i], role, dflt, x), got = a && strstr(a, "\"result\"") && strstr(a, body); asked++; granted += got; vh_evals(1); h = h * 131 + (uint64_t)(i * 2 + got);
                if (got != want) vh_viol("rules:served", "read of vt%d://%s as %s is %s, the rules say %s; answer %.200s", i, x, role, got ? "served" : "refused", want ? "served" : "refused", a ? a : "(none)");
                if (!want && handled != h0) vh_viol("rules:handler", "the handler ran for a refused read");
                if (!want && a && strstr(a, body)) vh_viol("rules:leak", "a refused read carries the content");
                free(a);
            }
        }
        (void)any; vs_close(w); vs_thread_done(); vh_distinct(h);
    }
    vh_count("reads of templated resources", asked); vh_count("served", granted);
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    if (!strcmp(vh_mode, "trip")) run_trip();
    else if (!strcmp(vh_mode, "any")) run_any();
    else if (!strcmp(vh_mode, "mt")) run_mt();
    else if (!strcmp(vh_mode, "rules")) run_rules();
    else run_server();
    return vh_finish();
}
