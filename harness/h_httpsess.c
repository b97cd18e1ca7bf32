// HTTP session manager against a model, from many threads, and identifier predictability.
// LINK: -Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=getpid,--wrap=read,--wrap=open
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <pthread.h>
#include "mcp_http_session_manager.h"

static long long vtime = 1700000000LL;
static int virt = 1, fixpid, rfault;
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*);
pid_t __real_getpid(void); ssize_t __real_read(int, void*, size_t); int __real_open(const char*, int, ...);
static long long now(void) { return __atomic_load_n(&vtime, __ATOMIC_RELAXED); }
static void advance(long long d) { __atomic_fetch_add(&vtime, d, __ATOMIC_RELAXED); }
time_t __wrap_time(time_t* t) { if (!virt) return __real_time(t); time_t v = (time_t)now(); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!virt) return __real_clock_gettime(c, ts); ts->tv_sec = (time_t)now(); ts->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!virt) return __real_gettimeofday(tv, z); tv->tv_sec = (time_t)now(); tv->tv_usec = 0; return 0; }
pid_t __wrap_getpid(void) { return fixpid ? 4242 : __real_getpid(); }
static long reads_faulted;
ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (rfault == 1 && n > 1) { reads_faulted++; return __real_read(fd, b, n / 2); }
    if (rfault == 2) { reads_faulted++; errno = EIO; return -1; }
    return __real_read(fd, b, n);
}
int __wrap_open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (rfault == 3 && !strncmp(p, "/dev/", 5)) { reads_faulted++; errno = EMFILE; return -1; }
    return __real_open(p, fl, m);
}

/* notifications, appended lock-free */
#define MAXN 400000
typedef struct { char id[40]; int st; int ready; } note_t;
static note_t* notes; static long nnotes;
static void cb(const char* id, mcp_session_state_t st, void* u) {
    if (u != (void*)&notes) vh_viol("cb-arg", "callback got a different user pointer");
    long i = __atomic_fetch_add(&nnotes, 1, __ATOMIC_RELAXED);
    if (i >= MAXN) return;
    snprintf(notes[i].id, sizeof notes[i].id, "%s", id ? id : "(null)"); notes[i].st = st;
}
static int notified(const char* id, int* last) { int n = 0; for (long i = 0; i < nnotes; i++) if (!strcmp(notes[i].id, id)) { n++; *last = notes[i].st; } return n; }

typedef struct { char id[MCP_SESSION_ID_MAX_LENGTH]; long long to, last; int ended; mcp_http_session_t* p; void* ud; } ms;
static ms* S; static int ns;

static int timed_out(const ms* m) { return m->to > 0 && now() - m->last > m->to; }
static void seq(vh_rng* r, int big) {
    uint32_t def = (uint32_t)vh_below(r, 30);
    mcp_http_session_manager_t* M = mcp_session_manager_create(def);
    nnotes = 0; mcp_session_manager_set_event_callback(M, cb, &notes);
    ns = 0; long live = 0; uint64_t h = 0; long gets = 0, expiries = 0;
    int ops = big ? 10400 : 300 + (int)vh_below(r, 400);
    for (int i = 0; i < ops; i++) {
        int k = (int)vh_below(r, 100);
        if (big) k = i < 10050 ? 0 : k;
        ms* m = ns ? &S[vh_chance(r, 50) && ns > 6 ? ns - 1 - (int)vh_below(r, 6) : (int)vh_below(r, (uint64_t)ns)] : NULL;
        /* whether a session still counts at exactly its timeout is left open: step over it */
        if (m && !m->ended && m->to > 0 && now() - m->last == m->to) advance(1);
        h = vh_hash(&k, sizeof k, h);
        if (k < 20 || !m) {
            ms* n = &S[ns]; memset(n, 0, sizeof *n);
            int32_t to = vh_chance(r, 25) ? 0 : vh_chance(r, 20) ? -(int32_t)vh_below(r, 5) - 1 : 1 + (int32_t)vh_below(r, 40);
            if (big) to = -1;
            char out[MCP_SESSION_ID_MAX_LENGTH + 8]; memset(out, 'Q', sizeof out);
            n->p = mcp_session_manager_create_session(M, out, to);
            if (!n->p) { if (live < 10000) { vh_viol("create", "creation refused with %ld live sessions", live); goto out; } vh_count("refused_when_full", 1); continue; }
            if (!memchr(out, 0, MCP_SESSION_ID_MAX_LENGTH) || !mcp_session_id_is_valid(out) || strlen(out) < 16) { vh_viol("id-form", "identifier is not well formed"); goto out; }
            strcpy(n->id, out);
            int from = big ? ns - 50 : 0;
            for (int j = from < 0 ? 0 : from; j < ns; j++) if (!strcmp(S[j].id, out)) { vh_viol("id-dup", "identifier %s given twice", out); goto out; }
            n->to = to == 0 ? def : to < 0 ? 0 : to; n->last = now(); n->ended = 0;
            if (strcmp(mcp_session_get_id(n->p), out)) { vh_viol("id-get", "session reports another identifier"); goto out; }
            if (mcp_session_get_user_data(n->p)) { vh_viol("userdata", "a new session has another session's user data"); goto out; }
            ns++; live++;
        } else if (k < 45) {
            gets++;
            int n0 = (int)nnotes;
            mcp_http_session_t* p = mcp_session_manager_get_session(M, m->id);
            int want = !m->ended && !timed_out(m);
            if (!!p != want) { vh_viol(p ? "found-dead" : "lost-live", "session %s %s, idle %lld s of %lld s", m->id, p ? "found after its end" : "not found while live", now() - m->last, m->to); goto out; }
            if (p && strcmp(mcp_session_get_id(p), m->id)) { vh_viol("mixup", "lookup of %s returned another session", m->id); goto out; }
            if (p && mcp_session_get_state(p) != MCP_SESSION_STATE_ACTIVE) { vh_viol("state", "live session not active"); goto out; }
            if (p && mcp_session_get_user_data(p) != m->ud) { vh_viol("userdata", "user data changed"); goto out; }
            if (p && vh_chance(r, 50)) { mcp_session_touch(p); m->last = now(); }
            if (p && vh_chance(r, 20)) { m->ud = (void*)(uintptr_t)vh_next(r); mcp_session_set_user_data(p, m->ud); }
            if (!m->ended && !want) { m->ended = 2; live--; expiries++; if (nnotes != n0 + 1) { vh_viol("notify", "%ld notifications at expiry", nnotes - n0); goto out; } }
        } else if (k < 52) {
            if (!m->ended) { mcp_session_touch(m->p); if (!timed_out(m)) m->last = now(); else vh_count("touch_after_timeout", 1); }
        } else if (k < 60) {
            int was_timed = timed_out(m);
            bool ok = mcp_session_manager_terminate_session(M, m->id);
            if (ok && m->ended) { vh_viol("twice-ended", "ending session %s succeeded again", m->id); goto out; }
            if (!ok && !m->ended && !was_timed) { vh_viol("terminate", "live session could not be ended"); goto out; }
            if (!m->ended) {
                int st, n = notified(m->id, &st);
                if (ok || n) { m->ended = 1; live--; if (n != 1) { vh_viol("notify", "%d notifications for one end", n); goto out; } }
            }
        } else if (k < 66) {
            mcp_session_manager_cleanup_expired(M);
            for (int j = 0; j < ns; j++) if (!S[j].ended) {
                if (S[j].to > 0 && now() - S[j].last == S[j].to) { int st; if (notified(S[j].id, &st)) { S[j].ended = 2; live--; } continue; }
                if (timed_out(&S[j])) { S[j].ended = 2; live--; expiries++; }
            }
            for (int j = 0; j < ns; j++) {
                int st = -1, n = notified(S[j].id, &st);
                if (n != (S[j].ended ? 1 : 0)) { vh_viol("notify", "session %s: %d end notifications, %s", S[j].id, n, S[j].ended ? "has ended" : "is live"); goto out; }
                if (big && j > 40) break;
            }
        } else if (k < 82) advance((long long)vh_below(r, vh_chance(r, 70) ? 6 : 50));
        else if (k < 92) {
            char b[300]; strcpy(b, m->id); size_t n = strlen(b);
            switch (vh_below(r, 5)) {
            case 0: b[n - 1] = 0; break;
            case 1: strcat(b, "0"); break;
            case 2: b[vh_below(r, n)] ^= 1; break;
            case 3: memset(b, 'a', 299); b[299] = 0; break;
            default: b[0] = 0; break;
            }
            int known = 0; for (int j = 0; j < ns; j++) if (!strcmp(S[j].id, b)) known = 1;
            if (!known && mcp_session_manager_get_session(M, b)) { vh_viol("found-foreign", "identifier '%s' was never given but is found", b); goto out; }
            if (!known && mcp_session_manager_terminate_session(M, b)) { vh_viol("found-foreign", "identifier '%s' was never given but was ended", b); goto out; }
        } else {
            size_t c = mcp_session_manager_get_active_count(M);
            if ((long)c != live) { vh_viol("count", "%zu active reported, %d created, %ld ended and notified", c, ns, nnotes); goto out; }
        }
    }
    {
        size_t c = mcp_session_manager_get_active_count(M);
        if ((long)c != live) vh_viol("count", "%zu active reported at the end, %ld live", c, live);
    }
out:
    mcp_session_manager_destroy(M);
    if (!vh_viol_count() && !big) for (int j = 0; j < ns; j++) {
        int st = -1, n = notified(S[j].id, &st);
        if (n != 1) { vh_viol("notify", "session %s: %d end notifications over its life", S[j].id, n); break; }
    }
    vh_count("sessions", ns); vh_count("lookups", gets); vh_count("expiries", expiries); vh_count("notifications", nnotes);
    vh_sample("%d sessions, %ld lookups, %ld expired, %ld end notifications", ns, gets, expiries, nnotes);
    vh_evals(1); if (ns > 3 && expiries) vh_distinct(h);
}

/* a full table: whoever is due ends, all others stay, every place can be used again */
static void full(vh_rng* r) {
    enum { N = 10000 }; mcp_http_session_manager_t* M = mcp_session_manager_create(0); nnotes = 0; mcp_session_manager_set_event_callback(M, cb, &notes);
    static char id[N][MCP_SESSION_ID_MAX_LENGTH]; static int lasting[N]; int pct = (int)vh_below(r, 3) * 50, stay = 0;
    for (int round = 0; round < 2 && !vh_viol_count(); round++) {
        nnotes = 0; int made = 0, kept = stay;
        for (int i = 0; i < N; i++) { if (round && lasting[i]) continue; int keep = vh_chance(r, (uint64_t)pct); if (!mcp_session_manager_create_session(M, id[i], keep ? -1 : 1 + (int)vh_below(r, 20))) { vh_viol("create", "creation refused with %d live sessions", kept + made); goto out; } made++; lasting[i] = keep; stay += keep; }
        advance(30); mcp_session_manager_cleanup_expired(M); long live = (long)mcp_session_manager_get_active_count(M);
        if (live != stay) vh_viol("cleanup", "%ld sessions active after the clean-up, %d should be", live, stay);
        if (nnotes != N - stay) vh_viol("notify", "%ld end notifications for %d expired sessions", nnotes, N - stay);
        for (int i = 0; i < N; i++) { if (i > 200 && i < N - 200 && i % 97) continue; if (!mcp_session_manager_get_session(M, id[i]) != !lasting[i]) { vh_viol("lookup", "session %d of a full table is %s after the clean-up", i, lasting[i] ? "gone" : "still there"); break; } }
    }
out:
    nnotes = 0; mcp_session_manager_destroy(M); vh_count("sessions of full tables", 2 * N - stay); vh_evals(1); vh_distinct((uint64_t)stay + 77);
}
/* ---- threads ---- */
typedef struct { mcp_http_session_manager_t* M; uint64_t seed; int ops, id; long created; char (*ids)[40]; int nids; } ta;
static int stop_tick;
static char shared_ids[64][40]; static int shared_ready[64];
static void* ticker(void* p) { ta* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    while (!__atomic_load_n(&stop_tick, __ATOMIC_ACQUIRE)) { if (vh_chance(&r, 50)) advance(1); if (vh_chance(&r, 30)) mcp_session_manager_cleanup_expired(a->M); (void)mcp_session_manager_get_active_count(a->M);
        int k = (int)vh_below(&r, 64); if (__atomic_load_n(&shared_ready[k], __ATOMIC_ACQUIRE)) { mcp_http_session_t* s = mcp_session_manager_get_session(a->M, shared_ids[k]); if (s) { (void)mcp_session_get_state(s); } }
        vh_usleep((long)vh_below(&r, 200)); }
    return NULL; }
static void* worker(void* p) {
    ta* a = p; vh_rng r; vh_rng_seed(&r, a->seed);
    struct { char id[MCP_SESSION_ID_MAX_LENGTH]; long long to, l0, l1; mcp_http_session_t* p; int on; } w[6]; memset(w, 0, sizeof w);
    for (int i = 0; i < a->ops; i++) {
        int k = (int)vh_below(&r, 6);
        if (!w[k].on) {
            int32_t to = vh_chance(&r, 50) ? -1 : 1 + (int32_t)vh_below(&r, 4);
            w[k].l0 = now(); w[k].p = mcp_session_manager_create_session(a->M, w[k].id, to); w[k].l1 = now();
            if (!w[k].p) { vh_viol("create", "creation refused"); return NULL; }
            snprintf(a->ids[a->nids++], 40, "%s", w[k].id); a->created++;
            w[k].to = to < 0 ? 0 : to; w[k].on = 1;
            int q = (int)vh_below(&r, 8) + a->id * 8;
            if (q < 64 && !__atomic_load_n(&shared_ready[q], __ATOMIC_ACQUIRE)) { strcpy(shared_ids[q], w[k].id); __atomic_store_n(&shared_ready[q], 1, __ATOMIC_RELEASE); }
            continue;
        }
        long long t0 = now();
        int must, mustnot;
        switch (vh_below(&r, 4)) {
        case 0: case 1: {
            mcp_http_session_t* s = mcp_session_manager_get_session(a->M, w[k].id); long long t1 = now();
            must = !w[k].to || t1 - w[k].l0 < w[k].to; mustnot = w[k].to && t0 - w[k].l1 > w[k].to;
            if (!s && must) { vh_viol("lost-live", "thread %d: live session not found (timeout %lld)", a->id, w[k].to); return NULL; }
            if (s && mustnot) { vh_viol("found-dead", "thread %d: session found %lld s after last use, timeout %lld", a->id, t0 - w[k].l1, w[k].to); return NULL; }
            if (s && !w[k].to && strcmp(mcp_session_get_id(s), w[k].id)) { vh_viol("mixup", "lookup returned another session"); return NULL; }
            if (!s) w[k].on = 0;
            else if (!w[k].to) mcp_session_touch(s);   /* a session with a timeout may end and its slot be reused at any time */
            break; }
        case 2: {
            bool ok = mcp_session_manager_terminate_session(a->M, w[k].id); long long t1 = now();
            must = !w[k].to || t1 - w[k].l0 < w[k].to;
            if (!ok && must) { vh_viol("terminate", "live session could not be ended"); return NULL; }
            w[k].on = 0;
            if (mcp_session_manager_get_session(a->M, w[k].id)) { vh_viol("found-dead", "ended session found"); return NULL; }
            if (mcp_session_manager_terminate_session(a->M, w[k].id)) { vh_viol("twice-ended", "ended session ended again"); return NULL; }
            break; }
        default:
            if (!w[k].to) { mcp_session_set_user_data(w[k].p, &w[k]); if (mcp_session_get_user_data(w[k].p) != &w[k]) { vh_viol("userdata", "user data lost"); return NULL; } }
        }
        if (vh_chance(&r, 10)) vh_yield_noise(&r);
    }
    return NULL;
}
static int cmp40(const void* a, const void* b) { return strcmp(a, b); }
static void mtcase(vh_rng* r) {
    int nt = 2 + (int)vh_below(r, 5); nnotes = 0;
    mcp_http_session_manager_t* M = mcp_session_manager_create(3);
    mcp_session_manager_set_event_callback(M, cb, &notes);
    memset(shared_ready, 0, sizeof shared_ready); stop_tick = 0;
    ta a[9]; pthread_t th[9]; memset(a, 0, sizeof a);
    for (int i = 0; i <= nt; i++) {
        a[i].M = M; a[i].seed = vh_next(r); a[i].ops = 120; a[i].id = i; a[i].ids = calloc(200, 40);
        pthread_create(&th[i], NULL, i == nt ? ticker : worker, &a[i]);
    }
    long created = 0; char (*all)[40] = calloc(2000, 40); long n = 0;
    for (int i = 0; i < nt; i++) { pthread_join(th[i], NULL); created += a[i].created; memcpy(all[n], a[i].ids, (size_t)a[i].nids * 40); n += a[i].nids; free(a[i].ids); }
    __atomic_store_n(&stop_tick, 1, __ATOMIC_RELEASE); pthread_join(th[nt], NULL); free(a[nt].ids);
    long ended = nnotes; size_t act = mcp_session_manager_get_active_count(M);
    if ((long)act != created - ended) vh_viol("count", "%zu active, %ld created, %ld end notifications", act, created, ended);
    mcp_session_manager_destroy(M);
    if (nnotes != created) vh_viol("notify", "%ld created but %ld end notifications", created, nnotes);
    qsort(all, (size_t)n, 40, cmp40); for (long i = 1; i < n; i++) if (!strcmp(all[i], all[i - 1])) vh_viol("id-dup", "identifier given twice");
    uint64_t h = 0; { char (*o)[40] = calloc((size_t)nnotes + 1, 40); for (long i = 0; i < nnotes && i < MAXN; i++) { strcpy(o[i], notes[i].id); int c = notes[i].st; h = vh_hash(&c, 4, h); }
      qsort(o, (size_t)nnotes, 40, cmp40); for (long i = 1; i < nnotes; i++) if (!strcmp(o[i], o[i - 1])) { vh_viol("notify", "end of %s notified twice", o[i]); break; } free(o); }
    free(all);
    vh_count("mt_sessions", created); vh_count("mt_notified", nnotes); vh_evals(1); vh_distinct(h ^ (uint64_t)created << 32);
    vh_sample("%d threads: %ld sessions, %ld ended before destroy", nt, created, ended);
}

/* ---- identifiers: two processes with the same clock, process id and memory must not draw the same ones ---- */
static void ids(vh_rng* r, int fault) {
    char got[3][8][40]; memset(got, 0, sizeof got); int n[3] = { 0 };
    fixpid = 1;
    uint64_t pre = vh_below(r, 4);
    mcp_http_session_manager_t* M = mcp_session_manager_create(10);
    char o[MCP_SESSION_ID_MAX_LENGTH]; char first[4][40]; memset(first, 0, sizeof first);
    for (uint64_t i = 0; i < pre; i++) { mcp_session_manager_create_session(M, o, -1); snprintf(first[i], 40, "%s", o); }
    srand(7); srandom(7);
    for (int c = 0; c < 3; c++) {
        int fd[2]; if (pipe(fd)) return;
        pid_t p = fork();
        if (!p) {
            rfault = fault; int made = 0;
            for (int i = 0; i < 6; i++) { memset(o, 0, sizeof o); if (mcp_session_manager_create_session(M, o, -1)) { rfault = 0; char b[40]; memset(b, 0, 40); snprintf(b, 40, "%s", o); if (write(fd[1], b, 40) != 40) _exit(1); made++; rfault = fault; } }
            _exit(0);
        }
        close(fd[1]); int rf = rfault; rfault = 0;
        while (n[c] < 8 && __real_read(fd[0], got[c][n[c]], 40) == 40) n[c]++;
        close(fd[0]); int st; waitpid(p, &st, 0); rfault = rf;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) vh_viol("crash", "child died while drawing identifiers");
    }
    fixpid = 0;
    if (!fault && (n[0] != 6 || n[1] != 6)) vh_viol("create", "only %d sessions created", n[0]);
    for (int c = 0; c < 3; c++) for (int d = c; d < 3; d++) for (int i = 0; i < n[c]; i++) for (int j = (c == d ? i + 1 : 0); j < n[d]; j++) {
        if (!strcmp(got[c][i], got[d][j])) vh_viol("predictable", "identifier %s drawn again (%s, fault %d)", got[c][i], c == d ? "same process" : "another process in the same state", fault);
        else {   /* hex digits in common at the same place: 32 random digits share far fewer than 15 */
            int same = 0; for (size_t k = 0; got[c][i][k] && got[d][j][k]; k++) same += got[c][i][k] == got[d][j][k];
            if (same >= 15) vh_viol("predictable", "identifiers %s and %s share %d places", got[c][i], got[d][j], same);
        }
    }
    vh_count("ids_compared", n[0] + n[1] + n[2]); vh_count(fault ? "fault_rounds" : "plain_rounds", 1);
    if (n[0]) vh_sample("e.g. %s", got[0][0]);
    mcp_session_manager_destroy(M);
    vh_evals(1); vh_distinct(vh_hash(got, sizeof got, (uint64_t)fault));
}
int main(int argc, char** argv) {
    vh_init(argc, argv);
    notes = calloc(MAXN, sizeof *notes); S = calloc(11000, sizeof *S);
    for (long i = 0; i < vh_cases && vh_viol_count() < 5; i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i);
        vh_note("case %ld mode %s", i, vh_mode);
        if (!strcmp(vh_mode, "seq")) { if (i == 1) full(&r); else seq(&r, i == 0); }
        else if (!strcmp(vh_mode, "mt")) mtcase(&r);
        else ids(&r, (int)(i % 4));
    }
    return vh_finish();
}
