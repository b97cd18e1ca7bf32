// Rate limiters against exact models in virtual time, sequentially and from many threads.
// LINK: -Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include <math.h>
#include "mcp_rate_limiter.h"
#include "mcp_advanced_rate_limiter.h"

/* ---- virtual time: one value for every clock the limiters could read ---- */
static volatile long long vtime = 1700000000LL;
static volatile int virt = 1;
time_t __real_time(time_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __wrap_time(time_t* t) {
    if (!virt) return __real_time(t);
    time_t v = (time_t)__atomic_load_n(&vtime, __ATOMIC_RELAXED);
    if (t) *t = v;
    return v;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (!virt) return __real_clock_gettime(c, ts);
    ts->tv_sec = (time_t)__atomic_load_n(&vtime, __ATOMIC_RELAXED); ts->tv_nsec = 0; return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* z) {
    if (!virt) return __real_gettimeofday(tv, z);
    tv->tv_sec = (time_t)__atomic_load_n(&vtime, __ATOMIC_RELAXED); tv->tv_usec = 0; return 0;
}
static long long now(void) { return __atomic_load_n(&vtime, __ATOMIC_RELAXED); }
static void advance(long long s) { __atomic_fetch_add(&vtime, s, __ATOMIC_RELAXED); }

/* ---- client names: many look alike, some share a djb2 hash, some are odd ---- */
#define MAXC 400
static char* names[MAXC];
static void make_names(vh_rng* r, int n) {
    static const char* frag[] = { "Ez", "FY", "G8" };   /* equal djb2 contributions */
    for (int i = 0; i < n; i++) {
        char b[400];
        int k = (int)vh_below(r, 8);
        if (i == 0) b[0] = 0;
        else if (k < 3) { b[0] = 0; int bits = i; for (int j = 0; j < 6; j++) { strcat(b, frag[bits % 3]); bits /= 3; } sprintf(b + strlen(b), "%d", i); }
        else if (k == 3) { memset(b, 'a' + i % 3, 300); sprintf(b + 300, "%d", i); }
        else if (k == 4) sprintf(b, "\xc3\xa9\xff%d", i);
        else if (k == 5) sprintf(b, "%d ", i);
        else sprintf(b, "10.0.%d.%d", i / 200, i % 200);
        free(names[i]); names[i] = strdup(b);
    }
    /* adjacent pair with truly equal hashes and lengths */
    if (n > 4) { free(names[2]); free(names[3]); names[2] = strdup("client-Ez"); names[3] = strdup("client-FY"); }
}

/* ---- basic limiter ---- */
typedef struct { int seen; long long start; size_t cnt; } fw_t;

/* several thousand clients in one limiter: each keeps its own count while the table grows around it */
static void basic_many(vh_rng* r) {
    size_t max = 1 + vh_below(r, 3); int nc = 3500 + (int)vh_below(r, 3000), stop = (int)vh_below(r, (uint64_t)nc);
    mcp_rate_limiter_t* L = mcp_rate_limiter_create(vh_below(r, 3) * 20, 1000, max);
    if (!L) { vh_viol("create", "create(1000,%zu) failed", max); return; }
    unsigned char* m = calloc((size_t)nc, 1); long adm = 0, ref = 0;
    for (int round = 0; round < (int)max + 2; round++) {
        for (int i = 0; i < nc; i++) {
            int c = (int)(((long long)i * 7919 + stop) % nc), again = round == 0 && vh_chance(r, 30) ? (int)max + 1 : 1;
            char b[48]; sprintf(b, "10.%d.%d.%d", c >> 16, (c >> 8) & 255, c & 255);
            while (again--) {
                bool got = mcp_rate_limiter_check(L, b), want = m[c] < max;
                if (want) m[c]++;
                got ? adm++ : ref++;
                if (got != want) {
                    vh_viol(got ? "basic-over" : "basic-under", "client %s, one of %d, round %d: %s although %d of %zu used", b, nc, round, got ? "admitted" : "refused", m[c], max);
                    goto out;
                }
            }
        }
    }
out:
    mcp_rate_limiter_destroy(L);
    free(m);
    vh_count("checks_admitted", adm); vh_count("checks_refused", ref); vh_count("large_tables", 1);
    vh_evals(1);
    uint64_t h = vh_hash(&nc, sizeof nc, max); h = vh_hash(&stop, sizeof stop, h);
    vh_distinct(h);
}
static void basic_seq(vh_rng* r) {
    if (vh_chance(r, 2)) { basic_many(r); return; }
    size_t win = 1 + vh_below(r, vh_chance(r, 50) ? 5 : 100), max = 1 + vh_below(r, vh_chance(r, 70) ? 6 : 200);
    int nc = 1 + (int)vh_below(r, vh_chance(r, 50) ? 6 : MAXC);
    make_names(r, nc);
    mcp_rate_limiter_t* L = mcp_rate_limiter_create(vh_below(r, 3) * 20, win, max);
    if (!L) { vh_viol("create", "create(%zu,%zu) failed", win, max); return; }
    fw_t* m = calloc((size_t)nc, sizeof *m);
    uint64_t h = 0; long adm = 0, ref = 0, wins = 0;
    int ops = 200 + (int)vh_below(r, 1500);
    for (int i = 0; i < ops; i++) {
        int k = (int)vh_below(r, 100);
        if (k < 12) {
            /* aim at window edges: just before, exactly at, just after some client's window end */
            int c = (int)vh_below(r, (uint64_t)nc); long long d = (long long)vh_below(r, win + 2);
            if (m[c].seen && vh_chance(r, 60)) { d = m[c].start + (long long)win - now() - 1 + (long long)vh_below(r, 3); if (d < 0) d = 0; }
            advance(d); h = vh_hash(&d, sizeof d, h);
            continue;
        }
        int c = vh_chance(r, 70) ? (int)vh_below(r, nc < 4 ? (uint64_t)nc : 4) : (int)vh_below(r, (uint64_t)nc);
        int burst = vh_chance(r, 15) ? (int)max + 2 : 1;
        if (burst > 60) burst = 60;
        while (burst--) {
            bool got = mcp_rate_limiter_check(L, names[c]);
            bool want;
            if (!m[c].seen || now() >= m[c].start + (long long)win) { m[c].seen = 1; m[c].start = now(); m[c].cnt = 1; want = true; wins++; }
            else if (m[c].cnt < max) { m[c].cnt++; want = true; }
            else want = false;
            h = vh_hash(&c, sizeof c, h);
            got ? adm++ : ref++;
            if (got != want) {
                vh_viol(got ? "basic-over" : "basic-under", "client %d: %s although %zu of %zu used, %lld s into a %zu s window",
                        c, got ? "admitted" : "refused", m[c].cnt, max, now() - m[c].start, win);
                goto out;
            }
        }
    }
    if (mcp_rate_limiter_check(L, NULL)) vh_viol("basic-null", "a check without a client was admitted");
out:
    mcp_rate_limiter_destroy(L);
    free(m);
    vh_count("checks_admitted", adm); vh_count("checks_refused", ref); vh_count("windows_opened", wins);
    vh_evals(1);
    vh_sample("basic limiter %zu per %zu s, %d clients: %ld admitted %ld refused, %ld windows", max, win, nc, adm, ref, wins);
    if (ref && adm) vh_distinct(h);
}

/* ---- threads ---- */
typedef struct {
    int id, nc, rounds, per; uint64_t seed; void* L; int adv; int* adm; int* req; pthread_barrier_t* b;
    mcp_rate_limit_key_type_t kt;
} targ;
static bool adv_check1(void* L, int kt, const char* k) {
    return mcp_advanced_rate_limiter_check(L, kt == 0 ? k : NULL, kt == 1 ? k : NULL, kt == 2 ? k : NULL, kt == 3 ? k : NULL);
}
static void* tmain(void* p) {
    targ* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    for (int k = 0; k < a->rounds; k++) {
        pthread_barrier_wait(a->b);
        for (int i = 0; i < a->per; i++) {
            int c = vh_chance(&r, 60) ? 0 : (int)vh_below(&r, (uint64_t)a->nc);
            a->req[c]++;
            bool ok = a->adv ? adv_check1(a->L, a->kt, names[c]) : mcp_rate_limiter_check(a->L, names[c]);
            if (ok) a->adm[c]++;
            if (vh_chance(&r, 10)) vh_yield_noise(&r);
            if (a->adv && vh_chance(&r, 3)) { mcp_advanced_rate_limiter_stats_t st; mcp_advanced_rate_limiter_get_stats(a->L, &st);
                if (st.allowed_requests + st.denied_requests != st.total_requests) vh_viol("adv-stats", "snapshot: %zu allowed + %zu denied != %zu", st.allowed_requests, st.denied_requests, st.total_requests); }
            if (a->adv && a->id == 0 && vh_chance(&r, 4)) {   /* unrelated rules come and go */
                mcp_rate_limit_rule_t ru = mcp_advanced_rate_limiter_create_default_rule(a->kt, MCP_RATE_LIMIT_SLIDING_WINDOW, 5, 1);
                ru.key_pattern = "unrelated-*"; ru.priority = 90;
                if (mcp_advanced_rate_limiter_add_rule(a->L, &ru)) mcp_advanced_rate_limiter_remove_rule(a->L, a->kt, "unrelated-*");
            }
        }
        pthread_barrier_wait(a->b);
        pthread_barrier_wait(a->b);
    }
    return NULL;
}

/* ---- models of the advanced algorithms ---- */
typedef struct {
    int alg; long long start; size_t cnt;            /* fixed window */
    long long* t; int nt;                            /* sliding: admissions */
    double lvl; long long last;                      /* buckets */
} ms_t;
static void ms_init(ms_t* s, const mcp_rate_limit_rule_t* ru) {
    free(s->t); memset(s, 0, sizeof *s);
    s->alg = ru->algorithm; s->start = s->last = now();
    s->lvl = ru->algorithm == MCP_RATE_LIMIT_TOKEN_BUCKET ? (double)ru->max_tokens : 0;
}
static int ms_step(ms_t* s, const mcp_rate_limit_rule_t* ru) {
    switch (s->alg) {
    case MCP_RATE_LIMIT_FIXED_WINDOW:
        if (now() - s->start >= (long long)ru->window_seconds) { s->start = now(); s->cnt = 0; }
        if (s->cnt < ru->max_requests_per_window) { s->cnt++; return 1; }
        return 0;
    case MCP_RATE_LIMIT_SLIDING_WINDOW: {
        int act = 0;
        for (int i = 0; i < s->nt; i++) if (now() - s->t[i] < (long long)ru->window_seconds) act++;
        if ((size_t)act < ru->max_requests_per_window) { s->t = realloc(s->t, sizeof(*s->t) * (size_t)(s->nt + 1)); s->t[s->nt++] = now(); return 1; }
        return 0; }
    case MCP_RATE_LIMIT_TOKEN_BUCKET: {
        double el = (double)(now() - s->last);
        if (el > 0) { s->lvl = fmin(s->lvl + el * ru->tokens_per_second, (double)ru->max_tokens); s->last = now(); }
        s->lvl = fmin(s->lvl, (double)ru->max_tokens);
        if (s->lvl >= 1.0) { s->lvl -= 1; return 1; }
        return 0; }
    default: {
        double el = (double)(now() - s->last);
        if (el > 0) { s->lvl = fmax(0.0, s->lvl - el * ru->leak_rate_per_second); s->last = now(); }
        if (s->lvl + 1.0 <= (double)ru->burst_capacity) { s->lvl += 1; return 1; }
        return 0; }
    }
}
static const double rates[] = { 0.125, 0.25, 0.5, 1, 2, 4, 10, 0 };
static mcp_rate_limit_rule_t rnd_rule(vh_rng* r, int kt) {
    mcp_rate_limit_rule_t ru;
    int a = (int)vh_below(r, 4);
    size_t win = 1 + vh_below(r, 12), max = vh_chance(r, 5) ? 0 : 1 + vh_below(r, vh_chance(r, 80) ? 6 : 100);
    if (a == 2) ru = mcp_advanced_rate_limiter_create_token_bucket_rule(kt, rates[vh_below(r, 8)], max);
    else if (a == 3) ru = mcp_advanced_rate_limiter_create_leaky_bucket_rule(kt, rates[vh_below(r, 8)], max);
    else ru = mcp_advanced_rate_limiter_create_default_rule(kt, a, win, max);
    return ru;
}

static void mt(vh_rng* r, int adv) {
    int nt = 2 + (int)vh_below(r, 5), nc = 1 + (int)vh_below(r, vh_chance(r, 60) ? 4 : 120), rounds = 4 + (int)vh_below(r, 8);
    make_names(r, nc);
    size_t win = 1 + vh_below(r, 8), max = 1 + vh_below(r, 40);
    int kt = (int)vh_below(r, 4);
    mcp_rate_limit_rule_t ru; void* L;
    if (adv) {
        ru = rnd_rule(r, kt);
        if (ru.max_requests_per_window) ru.max_requests_per_window *= 5;
        mcp_advanced_rate_limiter_config_t cfg; memset(&cfg, 0, sizeof cfg); cfg.capacity_hint = 1 + vh_below(r, 20);
        L = mcp_advanced_rate_limiter_create(&cfg);
        mcp_advanced_rate_limiter_add_rule(L, &ru);
    } else L = mcp_rate_limiter_create(0, win, max);
    targ a[8]; pthread_t th[8]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, (unsigned)nt + 1);
    ms_t* m = calloc((size_t)nc, sizeof *m); int* seen = calloc((size_t)nc, sizeof(int)); fw_t* fm = calloc((size_t)nc, sizeof *fm);
    int per = 30 + (int)vh_below(r, 100);
    for (int i = 0; i < nt; i++) {
        a[i] = (targ){ .id = i, .nc = nc, .rounds = rounds, .per = per, .seed = vh_next(r), .L = L, .adv = adv, .b = &b, .kt = kt };
        a[i].adm = calloc((size_t)nc, sizeof(int)); a[i].req = calloc((size_t)nc, sizeof(int));
        pthread_create(&th[i], NULL, tmain, &a[i]);
    }
    uint64_t h = 0; long treq = 0, tadm = 0;
    for (int k = 0; k < rounds; k++) {
        for (int i = 0; i < nt; i++) { memset(a[i].adm, 0, sizeof(int) * (size_t)nc); memset(a[i].req, 0, sizeof(int) * (size_t)nc); }
        pthread_barrier_wait(&b);
        pthread_barrier_wait(&b);
        for (int c = 0; c < nc; c++) {
            int req = 0, adm = 0, want = 0;
            for (int i = 0; i < nt; i++) { req += a[i].req[c]; adm += a[i].adm[c]; h = vh_hash(&a[i].adm[c], sizeof(int), h); }
            treq += req; tadm += adm;
            for (int q = 0; q < req; q++) {
                if (adv) { if (!seen[c]) { seen[c] = 1; ms_init(&m[c], &ru); } want += ms_step(&m[c], &ru); }
                else if (!fm[c].seen || now() >= fm[c].start + (long long)win) { fm[c].seen = 1; fm[c].start = now(); fm[c].cnt = 1; want++; }
                else if (fm[c].cnt < max) { fm[c].cnt++; want++; }
            }
            if (adm != want) vh_viol(adm > want ? "mt-over" : "mt-under", "%s: %d threads made %d requests for one client in one second, %d admitted, %d allowed (alg %d)",
                                     adv ? "advanced" : "basic", nt, req, adm, want, adv ? (int)ru.algorithm : 0);
        }
        long long d = (long long)vh_below(r, win + 2); advance(d);
        pthread_barrier_wait(&b);
    }
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); free(a[i].adm); free(a[i].req); }
    if (adv) {
        mcp_advanced_rate_limiter_stats_t st; mcp_advanced_rate_limiter_get_stats(L, &st);
        if ((long)st.total_requests != treq || (long)st.allowed_requests != tadm || (long)(st.denied_requests) != treq - tadm)
            vh_viol("adv-stats", "%ld requests %ld admitted, statistics say %zu/%zu/%zu", treq, tadm, st.total_requests, st.allowed_requests, st.denied_requests);
        mcp_advanced_rate_limiter_destroy(L);
    } else mcp_rate_limiter_destroy(L);
    pthread_barrier_destroy(&b);
    for (int c = 0; c < nc; c++) free(m[c].t);
    free(m); free(seen); free(fm);
    vh_count("mt_requests", treq); vh_count("mt_admitted", tadm);
    vh_sample("%s limiter, %d threads, %d clients: %ld of %ld requests admitted", adv ? "advanced" : "basic", nt, nc, tadm, treq);
    vh_evals(1); if (tadm && tadm < treq) vh_distinct(h);
}

/* ---- advanced limiter, sequential, with patterns, priorities, rule changes and several keys ---- */
static int pmatch(const char* key, const char* pat) {
    if (!pat) return 1;
    size_t n = strlen(pat), k = strlen(key);
    if (!strcmp(pat, key)) return 1;
    if (n > 2 && pat[0] == '*' && pat[n - 1] == '*') { char b[512]; memcpy(b, pat + 1, n - 2); b[n - 2] = 0; return strstr(key, b) != NULL; }
    if (n > 1 && pat[n - 1] == '*') return strncmp(key, pat, n - 1) == 0;
    if (n > 1 && pat[0] == '*') return k >= n - 1 && !strcmp(key + k - (n - 1), pat + 1);
    return 0;
}
#define MAXR 10
typedef struct { mcp_rate_limit_rule_t ru; int used; char pat[64]; int ver; } mrule;
static mrule R4[4][MAXR];
static int nver;
typedef struct { ms_t cand[2]; int nc; int ver; int live; } mclient;
static mclient MC[4][24];
static const mrule* mfind(int kt, const char* key) {
    const mrule* b = NULL;
    for (int i = 0; i < MAXR; i++) if (R4[kt][i].used && pmatch(key, R4[kt][i].ru.key_pattern) && (!b || R4[kt][i].ru.priority > b->ru.priority)) b = &R4[kt][i];
    return b;
}
static void ms_copy(ms_t* d, const ms_t* s) { *d = *s; if (s->t) { d->t = malloc(sizeof(*d->t) * (size_t)(s->nt + 1)); memcpy(d->t, s->t, sizeof(*d->t) * (size_t)s->nt); } }
/* possible verdicts of one key: bit 0 = may refuse, bit 1 = may admit */
static int mverd(int kt, int c, const mrule* ru) {
    mclient* m = &MC[kt][c];
    if (!ru) return 1;
    if (!m->live) { for (int i = 0; i < m->nc; i++) { free(m->cand[i].t); m->cand[i].t = NULL; } memset(m, 0, sizeof *m); m->live = 1; m->nc = 1; ms_init(&m->cand[0], &ru->ru); m->ver = ru->ver; }
    if (m->ver != ru->ver) {   /* another rule decides now: state may carry over or start afresh */
        m->ver = ru->ver;
        if (m->nc == 2) { free(m->cand[1].t); m->cand[1].t = NULL; m->nc = 1; }
        if (m->cand[0].alg != (int)ru->ru.algorithm) ms_init(&m->cand[0], &ru->ru);
        else { memset(&m->cand[1], 0, sizeof(ms_t)); ms_init(&m->cand[1], &ru->ru); m->nc = 2; }
    }
    int v = 0;
    for (int i = 0; i < m->nc; i++) { ms_t t; ms_copy(&t, &m->cand[i]); v |= ms_step(&t, &ru->ru) ? 2 : 1; free(t.t); }
    return v;
}
static void mapply(int kt, int c, const mrule* ru, int verdict) {
    mclient* m = &MC[kt][c];
    if (m->nc == 2 && m->cand[0].alg == MCP_RATE_LIMIT_SLIDING_WINDOW) {
        /* bounds: what is remembered lies between the whole history and the part since the rule changed */
        for (int i = 0; verdict && i < 2; i++) { ms_t* s = &m->cand[i]; s->t = realloc(s->t, sizeof(*s->t) * (size_t)(s->nt + 1)); s->t[s->nt++] = now(); }
        return;
    }
    for (int i = 0; i < m->nc; ) {
        if (ms_step(&m->cand[i], &ru->ru) != verdict) {
            free(m->cand[i].t); m->cand[i].t = NULL;
            if (i == 0 && m->nc == 2) { m->cand[0] = m->cand[1]; memset(&m->cand[1], 0, sizeof(ms_t)); }
            m->nc--;
        } else i++;
    }
    if (m->nc == 0) { m->nc = 1; memset(&m->cand[0], 0, sizeof(ms_t)); m->live = 0; }
}
static const char* akeys[] = { "a", "ab", "abc", "client-Ez", "client-FY", "xab", "10.0.0.1", "10.0.0.11", "", "*", "a*", "zzab-zz" };
#define NK 12
static const char* apats[] = { NULL, "a", "a*", "ab*", "*b", "*ab*", "10.0.0.1", "10.0.0.1*", "client-*", "*Ez", "*ab", "*a*" };

static void adv_seq(vh_rng* r) {
    memset(R4, 0, sizeof R4);
    for (int k = 0; k < 4; k++) for (int c = 0; c < NK; c++) { free(MC[k][c].cand[0].t); free(MC[k][c].cand[1].t); memset(&MC[k][c], 0, sizeof(mclient)); }
    mcp_advanced_rate_limiter_config_t cfg; memset(&cfg, 0, sizeof cfg);
    cfg.capacity_hint = vh_below(r, 10); cfg.enable_burst_handling = vh_chance(r, 50);
    mcp_advanced_rate_limiter_t* L = mcp_advanced_rate_limiter_create(vh_chance(r, 20) ? NULL : &cfg);
    if (!L) { vh_viol("create", "create failed"); return; }
    int multi = vh_chance(r, 40), changes = vh_chance(r, 50);
    size_t tot = 0, adm = 0; uint64_t h = 0; long ruled = 0, ambiguous = 0, changed = 0;
    int ops = 300 + (int)vh_below(r, 900);
    int prio = 0;
    for (int i = 0; i < ops; i++) {
        int k = (int)vh_below(r, 100);
        int mutate = i < 4 || (changes && k < 3);
        if (mutate) {
            int kt = multi ? (int)vh_below(r, 4) : 0;
            /* bring every tracked client up to date so that lazy and eager accounting agree */
            for (int c = 0; c < NK; c++) {
                const mrule* ru = mfind(kt, akeys[c]); if (!ru) continue;
                int v = mverd(kt, c, ru); bool got = adv_check1(L, kt, akeys[c]); tot++; adm += got;
                if (!((got ? 2 : 1) & v)) { vh_viol("adv-verdict", "key type %d key '%s' %s, model disagrees (alg %d)", kt, akeys[c], got ? "admitted" : "refused", ru->ru.algorithm); goto out; }
                mapply(kt, c, ru, got);
            }
            int slot = (int)vh_below(r, MAXR);
            if (R4[kt][slot].used) {
                if (!mcp_advanced_rate_limiter_remove_rule(L, kt, R4[kt][slot].ru.key_pattern)) { vh_viol("adv-rule", "existing rule could not be removed"); goto out; }
                R4[kt][slot].used = 0; changed++;
            } else {
                const char* pat = apats[vh_below(r, 12)]; int dup = 0;
                for (int q = 0; q < MAXR; q++) if (R4[kt][q].used && ((!pat && !R4[kt][q].ru.key_pattern) || (pat && R4[kt][q].ru.key_pattern && !strcmp(pat, R4[kt][q].ru.key_pattern)))) dup = 1;
                if (dup) continue;
                mrule* m = &R4[kt][slot];
                m->ru = rnd_rule(r, kt);
                m->ru.key_pattern = NULL;
                if (pat) { strcpy(m->pat, pat); m->ru.key_pattern = m->pat; }
                prio++; m->ru.priority = (prio * 37) % 101;   /* distinct within a case */
                int clash = 0; for (int q = 0; q < MAXR; q++) if (q != slot && R4[kt][q].used && R4[kt][q].ru.priority == m->ru.priority) clash = 1;
                if (clash) continue;
                char tmp[64]; mcp_rate_limit_rule_t arg = m->ru;
                if (arg.key_pattern) { strcpy(tmp, m->pat); arg.key_pattern = tmp; }
                if (!mcp_advanced_rate_limiter_add_rule(L, &arg)) { vh_viol("adv-rule", "rule could not be added"); goto out; }
                memset(tmp, 'Z', sizeof tmp);                 /* the limiter must have its own copy */
                m->used = 1; m->ver = ++nver; changed++;
            }
            continue;
        }
        if (k < 12) { long long d = (long long)vh_below(r, vh_chance(r, 80) ? 4 : 30); advance(d); h = vh_hash(&d, 8, h); continue; }
        if (k == 12 && vh_chance(r, 20)) {
            mcp_advanced_rate_limiter_clear_data(L); tot = adm = 0;
            for (int q = 0; q < 4; q++) for (int c = 0; c < NK; c++) MC[q][c].live = 0;
            continue;
        }
        int ks[4]; const char* kp[4]; int any = 0;
        for (int q = 0; q < 4; q++) {
            ks[q] = (int)vh_below(r, vh_chance(r, 60) ? 3 : NK);
            kp[q] = (multi ? vh_chance(r, 50) : q == 0) ? akeys[ks[q]] : NULL; any |= kp[q] != NULL;
        }
        if (!any) continue;
        /* order in which keys are tried: API key, user, address, custom; the first that admits is charged */
        static const int ord[4] = { MCP_RATE_LIMIT_KEY_API_KEY, MCP_RATE_LIMIT_KEY_USER_ID, MCP_RATE_LIMIT_KEY_IP, MCP_RATE_LIMIT_KEY_CUSTOM };
        int vs[4]; const mrule* rus[4]; int poss = 1, nany = 0, amb = 0;
        for (int q = 0; q < 4; q++) {
            int kt = ord[q]; vs[q] = 0; rus[q] = NULL;
            if (!kp[kt]) continue;
            rus[q] = mfind(kt, kp[kt]); vs[q] = mverd(kt, ks[kt], rus[q]); nany++;
            if (rus[q]) ruled++;
            if (vs[q] == 3) { amb = 1; }
            if (!(vs[q] & 1)) break;    /* surely admitted here: later keys are not looked at */
        }
        (void)nany;
        int canadmit = 0, canrefuse = 1;
        for (int q = 0; q < 4; q++) if (vs[q]) { if (vs[q] & 2) canadmit = 1; if (!(vs[q] & 1)) canrefuse = 0; }
        poss = (canadmit ? 2 : 0) | (canrefuse ? 1 : 0);
        bool got = mcp_advanced_rate_limiter_check(L, kp[0], kp[1], kp[2], kp[3]);
        tot++; adm += got; h = vh_hash(ks, sizeof ks, h); h = vh_hash(&got, 1, h);
        if (!((got ? 2 : 1) & poss)) {
            int al = -1; for (int q = 0; q < 4; q++) if (rus[q]) al = rus[q]->ru.algorithm;
            vh_viol(got ? "adv-over" : "adv-under", "request %s (keys ip=%s user=%s api=%s custom=%s, last rule's algorithm %d)", got ? "admitted over the limit" : "refused within the limit",
                    kp[0] ? kp[0] : "-", kp[1] ? kp[1] : "-", kp[2] ? kp[2] : "-", kp[3] ? kp[3] : "-", al);
            goto out;
        }
        if (amb) ambiguous++;
        if (amb) {
            int nkeys = 0; for (int q = 0; q < 4; q++) if (vs[q]) nkeys++;
            if (nkeys > 1) break;    /* which key was charged is not observable: stop the history here */
        }
        for (int q = 0; q < 4; q++) {
            if (!rus[q]) continue;
            int v = (vs[q] == 3) ? got : (vs[q] == 2);
            mapply(ord[q], ks[ord[q]], rus[q], v);
            if (v) break;
        }
    }
    {
        mcp_advanced_rate_limiter_stats_t st; memset(&st, 0, sizeof st);
        mcp_advanced_rate_limiter_get_stats(L, &st);
        size_t rc = 0; for (int k = 0; k < 4; k++) for (int q = 0; q < MAXR; q++) rc += (size_t)R4[k][q].used;
        if (st.total_requests != tot || st.allowed_requests != adm || st.denied_requests != tot - adm || st.rule_count != rc)
            vh_viol("adv-stats", "statistics %zu/%zu/%zu rules %zu, expected %zu/%zu/%zu rules %zu", st.total_requests, st.allowed_requests, st.denied_requests, st.rule_count, tot, adm, tot - adm, rc);
    }
out:
    mcp_advanced_rate_limiter_destroy(L);
    vh_count("adv_checks", (long)tot); vh_count("adv_admitted", (long)adm); vh_count("adv_rule_changes", changed); vh_count("adv_ambiguous_after_change", ambiguous);
    vh_sample("advanced limiter: %zu of %zu admitted, %ld rule changes, %s keys", adm, tot, changed, multi ? "several" : "one");
    vh_evals(1); if (adm && adm < tot) vh_distinct(h);
}

int main(int argc, char** argv) {
    vh_init(argc, argv);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i);
        vh_note("case %ld mode %s", i, vh_mode);
        if (!strcmp(vh_mode, "basic")) basic_seq(&r);
        else if (!strcmp(vh_mode, "basicmt")) mt(&r, 0);
        else if (!strcmp(vh_mode, "adv")) adv_seq(&r);
        else mt(&r, 1);
    }
    return vh_finish();
}
