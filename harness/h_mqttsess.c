/* P20: saved MQTT sessions: exact restore, isolation between clients, old-or-new after a crash or
 * I/O error at any system call (enumerated with ptrace), cut files refused. */
// LINK: -Wl,--wrap=gettimeofday -Wl,--wrap=clock_gettime -Wl,--wrap=time
#include "vh.h"
#include "internal/mqtt_session_persistence.h"
#include "internal/mqtt_client_internal.h"
#include "mcp_log.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <fcntl.h>

static long long voff_ms;      /* virtual time offset */
int __real_gettimeofday(struct timeval* tv, void* tz);
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
    int r = __real_gettimeofday(tv, tz);
    long long o = __atomic_load_n(&voff_ms, __ATOMIC_RELAXED); tv->tv_sec += o / 1000; return r;
}
int __real_clock_gettime(clockid_t c, struct timespec* ts);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    int r = __real_clock_gettime(c, ts);
    if (c == CLOCK_REALTIME) ts->tv_sec += __atomic_load_n(&voff_ms, __ATOMIC_RELAXED) / 1000;
    return r;
}
time_t __real_time(time_t* t);
time_t __wrap_time(time_t* t) { time_t v = __real_time(NULL) + __atomic_load_n(&voff_ms, __ATOMIC_RELAXED) / 1000; if (t) *t = v; return v; }

typedef struct mqtt_subscription sub_t; typedef struct mqtt_inflight_message inf_t;
static char* rstr(vh_rng* r, int max) {
    int n = vh_chance(r, 5) ? 0 : vh_chance(r, 3) ? (int)vh_below(r, 65536) : (int)vh_below(r, (uint64_t)max);
    char* s = malloc((size_t)n + 1);
    for (int i = 0; i < n; i++) s[i] = (char)(1 + vh_below(r, 255));
    s[n] = 0; return s;
}
static void gen(vh_rng* r, mqtt_session_data_t* d, int small) {
    memset(d, 0, sizeof *d);
    int ns = (int)vh_below(r, small ? 4 : 12), ni = (int)vh_below(r, small ? 4 : 12);
    sub_t** st = &d->subscriptions; inf_t** it = &d->inflight_messages;
    if (!small && vh_chance(r, 2)) ns = 200 + (int)vh_below(r, 600); if (!small && vh_chance(r, 2)) ni = 200 + (int)vh_below(r, 600);
    for (int i = 0; i < ns; i++) { sub_t* s = calloc(1, sizeof *s); s->topic = rstr(r, 60); s->qos = (int)vh_below(r, 3); s->active = true; *st = s; st = &s->next; }
    for (int i = 0; i < ni; i++) {
        inf_t* m = calloc(1, sizeof *m);
        m->packet_id = (uint16_t)vh_next(r); m->topic = rstr(r, 60);
        m->payload_len = vh_chance(r, 15) ? 0 : !small && ni < 20 && vh_chance(r, 1) ? 60000 + vh_below(r, 90000) : vh_chance(r, 10) ? vh_below(r, 20000) : vh_below(r, 200);
        m->payload = malloc(m->payload_len + 1);
        for (size_t k = 0; k < m->payload_len; k++) ((unsigned char*)m->payload)[k] = (unsigned char)vh_next(r);
        m->qos = 1 + (int)vh_below(r, 2); m->retain = vh_chance(r, 50); m->send_time = vh_next(r) >> 3; m->retry_count = (uint32_t)vh_below(r, 1000);
        *it = m; it = &m->next;
    }
    d->last_packet_id = (uint32_t)vh_below(r, 65536) + (vh_chance(r, 10) ? 70000 : 0);
    d->session_created_time = vh_next(r) >> 4;
    d->session_expiry_interval = vh_chance(r, 50) ? 0 : 60 + (uint32_t)vh_below(r, 100000);
}
static void rel(mqtt_session_data_t* d) {
    for (sub_t* s = d->subscriptions; s;) { sub_t* n = s->next; free(s->topic); free(s); s = n; }
    for (inf_t* m = d->inflight_messages; m;) { inf_t* n = m->next; free(m->topic); free(m->payload); free(m); m = n; }
    memset(d, 0, sizeof *d);
}
static const char* differ(const mqtt_session_data_t* a, const mqtt_session_data_t* b) {
    const sub_t *s = a->subscriptions, *t = b->subscriptions;
    for (; s && t; s = s->next, t = t->next) {
        if (strcmp(s->topic, t->topic)) return "subscription topic";
        if (s->qos != t->qos) return "subscription qos";
    }
    if (s || t) return "number of subscriptions";
    const inf_t *m = a->inflight_messages, *n = b->inflight_messages;
    for (; m && n; m = m->next, n = n->next) {
        if (m->packet_id != n->packet_id) return "in-flight packet id";
        if (strcmp(m->topic, n->topic)) return "in-flight topic";
        if (m->payload_len != n->payload_len || memcmp(m->payload, n->payload, m->payload_len)) return "in-flight payload";
        if (m->qos != n->qos || m->retain != n->retain) return "in-flight flags";
        if (m->send_time != n->send_time || m->retry_count != n->retry_count) return "in-flight retry state";
    }
    if (m || n) return "number of in-flight messages";
    if (a->last_packet_id != b->last_packet_id) return "last packet id";
    if (a->session_created_time != b->session_created_time) return "creation time";
    if (a->session_expiry_interval != b->session_expiry_interval) return "expiry interval";
    return NULL;
}
static char store[512];
static int files(char out[][320], int max) {
    int n = 0; DIR* d = opendir(store); struct dirent* e;
    while (d && (e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < max) snprintf(out[n++], 320, "%s", e->d_name);
    if (d) closedir(d);
    return n;
}
static void wipe(void) {
    static char f[512][320]; int n = files(f, 512); char p[900];
    for (int i = 0; i < n; i++) { snprintf(p, sizeof p, "%s/%s", store, f[i]); unlink(p); }
}
/* ---- client ids that are easily confused */
static void gen_id(vh_rng* r, char* o, size_t cap) {
    static const char* base[] = { "client", "dev/ice", "dev_ice", "dev%2Fice", "a:b", "a_b", "a*b", "a|b", "x", "xx", "../up", ".._up", "%", "%25", "..", ".", "q?", "q_", "a\\b", "a\"b", "a<b", "a>b", "tmp", ".tmp", "s.tmp" };
    if (vh_chance(r, 60)) snprintf(o, cap, "%s", base[vh_below(r, sizeof base / sizeof *base)]);
    else {
        static const char al[] = "ab01_-.%/:*?\"<>|\\ ~";
        int n = 1 + (int)vh_below(r, 14); for (int i = 0; i < n; i++) o[i] = al[vh_below(r, sizeof al - 1)]; o[n] = 0;
    }
    size_t l = strlen(o);
    if (vh_chance(r, 40) && l + 2 < cap) { o[l] = (char)('A' + vh_below(r, 3)); o[l + 1] = 0; }
}
#define NC 12
static void histories(void) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 131 + (uint64_t)c); wipe();
        char id[NC][64]; mqtt_session_data_t cur[NC]; int has[NC]; long long at[NC]; memset(has, 0, sizeof has); memset(cur, 0, sizeof cur);
        for (int i = 0; i < NC; i++) { again: gen_id(&r, id[i], sizeof id[i]); for (int j = 0; j < i; j++) if (!strcmp(id[i], id[j])) goto again; }
        uint64_t hist = 0; voff_ms = 0;
        for (int s = 0; s < 60; s++) {
            int k = (int)vh_below(&r, NC), o = (int)vh_below(&r, 100);
            hist = vh_hash(&k, sizeof k, hist); hist = vh_hash(&o, sizeof o, hist);
            if (o < 35) {
                mqtt_session_data_t d; gen(&r, &d, 0); d.client_id = id[k];
                int rc = mqtt_session_save(id[k], &d); d.client_id = NULL;
                vh_count("saves", 1);
                if (rc != 0) { vh_viol("save", "saving a session of client \"%s\" failed", id[k]); rel(&d); break; }
                if (has[k]) rel(&cur[k]);
                cur[k] = d; has[k] = 1; at[k] = voff_ms;
            } else if (o < 70) {
                mqtt_session_data_t d; memset(&d, 0, sizeof d);
                int rc = mqtt_session_load(id[k], &d);
                long long age = (voff_ms - at[k]) / 1000, ex = has[k] ? cur[k].session_expiry_interval : 0;
                int must_live = has[k] && (!ex || age < ex - 2), must_dead = !has[k] || (ex && age > ex + 2);
                vh_count("loads", 1);
                if (rc == 0 && must_dead) vh_viol(has[k] ? "load-expired" : "load-ghost", "loading client \"%s\" succeeded although %s", id[k], has[k] ? "it had expired" : "nothing was saved");
                else if (rc != 0 && must_live) { vh_viol("load-lost", "session of client \"%s\" saved earlier could not be loaded", id[k]); }
                else if (rc == 0) { const char* w = differ(&cur[k], &d); vh_count("restored", 1); if (w) vh_viol("restore", "client \"%s\": restored session differs in %s", id[k], w); }
                if (rc != 0 && has[k] && !must_live) { rel(&cur[k]); has[k] = 0; mqtt_session_delete(id[k]); }
                if (rc == 0) rel(&d);
            } else if (o < 78) {
                mqtt_session_delete(id[k]);
                if (mqtt_session_exists(id[k])) vh_viol("delete", "deleted session of \"%s\" still exists", id[k]);
                if (has[k]) rel(&cur[k]);
                has[k] = 0;
            } else if (o < 84) {
                bool e = mqtt_session_exists(id[k]);
                if (has[k] && !e) vh_viol("exists", "existing session of \"%s\" reported missing", id[k]);
                if (!has[k] && e) vh_viol("exists-ghost", "client \"%s\" reported to have a session", id[k]);
            } else if (o < 90) {
                long long age = (voff_ms - at[k]) / 1000, ex = has[k] ? cur[k].session_expiry_interval : 0;
                int rc = mqtt_session_update_access_time(id[k]);
                if (has[k] && (!ex || age < ex - 2)) { if (rc) vh_viol("touch", "update_access_time failed for live session of \"%s\"", id[k]); at[k] = voff_ms; }
                else if (has[k]) { if (rc == 0) at[k] = voff_ms; else { rel(&cur[k]); has[k] = 0; mqtt_session_delete(id[k]); } }
            } else if (o < 94) {
                uint64_t ct, la; uint32_t ei;
                if (has[k]) {
                    if (mqtt_session_get_info(id[k], &ct, &la, &ei) != 0) vh_viol("info", "get_info failed for \"%s\"", id[k]);
                    else if (ct != cur[k].session_created_time || ei != cur[k].session_expiry_interval) vh_viol("info", "get_info of \"%s\" differs from what was saved", id[k]);
                }
            } else if (o < 97) {
                voff_ms += (long long)vh_below(&r, 40000) * 1000;
            } else {
                mqtt_session_cleanup_expired();
                vh_count("cleanups", 1);
                for (int i = 0; i < NC; i++) if (has[i]) {
                    long long age = (voff_ms - at[i]) / 1000, ex = cur[i].session_expiry_interval; bool e = mqtt_session_exists(id[i]);
                    if ((!ex || age < ex - 2) && !e) vh_viol("cleanup-live", "cleanup removed the live session of \"%s\"", id[i]);
                    if (ex && age > ex + 2 && e) vh_viol("cleanup-left", "cleanup left the expired session of \"%s\"", id[i]);
                    if (!e) { rel(&cur[i]); has[i] = 0; }
                }
            }
            if (vh_viol_count()) break;
        }
        vh_evals(1); vh_distinct(hist);
        if (c < 2) vh_sample("history over ids \"%s\" \"%s\" \"%s\" ... (60 steps)", id[0], id[1], id[2]);
        for (int i = 0; i < NC; i++) if (has[i]) rel(&cur[i]);
    }
}
static void cuts(void) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 977 + (uint64_t)c); wipe(); voff_ms = 0;
        mqtt_session_data_t d; gen(&r, &d, 1); d.client_id = "cut";
        if (mqtt_session_save("cut", &d) != 0) { vh_viol("save", "save failed"); break; }
        char f[8][320], p[900]; int n = files(f, 8);
        if (n != 1) { vh_viol("leftover", "%d files in the store after saving one session", n); break; }
        snprintf(p, sizeof p, "%s/%s", store, f[0]);
        struct stat st; stat(p, &st); char* buf = malloc((size_t)st.st_size + 1);
        FILE* fp = fopen(p, "rb"); size_t sz = fread(buf, 1, (size_t)st.st_size, fp); fclose(fp);
        for (size_t k = 0; k <= sz; k += (sz > 600 && k > 120 && k + 130 < sz) ? 1 + vh_below(&r, sz / 60) : 1) {
            fp = fopen(p, "wb"); fwrite(buf, 1, k, fp); fclose(fp);
            mqtt_session_data_t x; memset(&x, 0, sizeof x);
            int rc = mqtt_session_load("cut", &x);
            vh_count("truncations", 1);
            if (k < sz && rc == 0) { vh_viol("cut-accepted", "file cut from %zu to %zu bytes was accepted", sz, k); rel(&x); break; }
            if (k == sz) { const char* w = rc ? "load failed" : differ(&d, &x); if (w) vh_viol("restore", "intact file: %s", w); }
            if (rc == 0) rel(&x);
            vh_distinct(vh_hash(&k, sizeof k, vh_hash(buf, sz, 0)));
            vh_evals(1);
        }
        /* random damage must never crash or hang the loader */
        for (int i = 0; i < 60; i++) {
            char* b2 = malloc(sz + 1); memcpy(b2, buf, sz);
            for (int j = 0; j < 1 + (int)vh_below(&r, 4); j++) b2[vh_below(&r, sz)] = (char)vh_next(&r);
            fp = fopen(p, "wb"); fwrite(b2, 1, sz, fp); fclose(fp); free(b2);
            mqtt_session_data_t x; memset(&x, 0, sizeof x);
            if (mqtt_session_load("cut", &x) == 0) rel(&x);
            vh_count("corruptions", 1);
        }
        if (c < 1) vh_sample("session file of %zu bytes cut at every length", sz);
        free(buf); d.client_id = NULL; rel(&d);
    }
}
/* ---- crash / error at the n-th file system call of a save, by tracing a forked child */
enum { KILL_BEFORE, KILL_AFTER, KILL_PARTIAL, FAIL_EIO, FAIL_ENOSPC, NACT };
static int interesting(unsigned long nr) {
    switch (nr) { case SYS_openat: case SYS_open: case SYS_creat: case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_fsync: case SYS_fdatasync: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_ftruncate: case SYS_close: case SYS_link: return 1; }
    return 0;
}
/* returns: -1 child finished before call n (rc in *crc), 0 acted */
static int traced(void (*fn)(void*), void* arg, int n, int act, int* crc, int* calls, uint64_t* sig) {
    pid_t pid = fork();
    if (pid == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        fn(arg);
        _exit(9);
    }
    int st, cnt = 0, entering = 1, done = 0, fail_now = 0; *crc = -100; *calls = 0;
    if (waitpid(pid, &st, 0) < 0 || !WIFSTOPPED(st)) return -2;
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    for (;;) {
        if (ptrace(PTRACE_SYSCALL, pid, 0, 0) < 0) break;
        if (waitpid(pid, &st, 0) < 0) break;
        if (WIFEXITED(st)) { *crc = WEXITSTATUS(st); *calls = cnt; return done ? 0 : -1; }
        if (WIFSIGNALED(st)) { *crc = -WTERMSIG(st); *calls = cnt; return done ? 0 : -1; }
        if (!WIFSTOPPED(st) || WSTOPSIG(st) != (SIGTRAP | 0x80)) continue;
        struct user_regs_struct u; ptrace(PTRACE_GETREGS, pid, 0, &u);
        if (entering) {
            if (interesting(u.orig_rax)) {
                cnt++; *sig = vh_hash(&u.orig_rax, sizeof u.orig_rax, *sig);
                if (cnt == n) {
                    done = 1;
                    if (act == KILL_BEFORE) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 0; }
                    if (act == KILL_PARTIAL) {
                        if (u.orig_rax == SYS_write && u.rdx > 1) { u.rdx /= 2; ptrace(PTRACE_SETREGS, pid, 0, &u); }
                    }
                    if (act == FAIL_EIO || act == FAIL_ENOSPC) {
                        fail_now = (u.orig_rax == SYS_close && act == FAIL_ENOSPC) ? 0 : 1;
                        if (fail_now) { u.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, pid, 0, &u); }
                    }
                }
            }
            entering = 0;
        } else {
            if (done && fail_now) { u.rax = (unsigned long)-(long)(act == FAIL_EIO ? EIO : ENOSPC); ptrace(PTRACE_SETREGS, pid, 0, &u); fail_now = 0; }
            if (done && cnt == n && (act == KILL_AFTER || act == KILL_PARTIAL)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 0; }
            entering = 1;
        }
    }
    return -2;
}
static void do_save(void* a) { mqtt_session_data_t* d = a; d->client_id = "victim"; _exit(mqtt_session_save("victim", d) == 0 ? 0 : 1); }
static void do_touch(void* a) { (void)a; _exit(mqtt_session_update_access_time("victim") == 0 ? 0 : 1); }
static void crashes(void) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 3331 + (uint64_t)c); voff_ms = 0;
        mqtt_session_data_t oldd, newd, other; gen(&r, &oldd, 1); gen(&r, &newd, 0); gen(&r, &other, 1);
        int had = vh_chance(&r, 80), touch = had && vh_chance(&r, 20);
        for (int act = 0; act < NACT && vh_viol_count() < 5; act++) {
            int total = 0;
            for (int n = 1; n < 400 && vh_viol_count() < 5; n++) {
                wipe();
                if (mqtt_session_save("bystander", &other) != 0 || (had && mqtt_session_save("victim", &oldd) != 0)) { vh_viol("save", "save failed"); return; }
                int crc, calls; uint64_t sig = 0;
                int t = traced(touch ? do_touch : do_save, touch ? NULL : &newd, n, act, &crc, &calls, &sig);
                if (t == -2) { fprintf(stderr, "ptrace not available\n"); exit(3); }
                if (t == -1) { total = n - 1; if (crc != 0) vh_viol("save", "undisturbed save failed (%d)", crc); }
                vh_evals(1); vh_count(t == -1 ? "undisturbed" : act <= KILL_PARTIAL ? "crashes" : "io_errors", 1);
                uint64_t hh = vh_hash(&n, sizeof n, sig); hh = vh_hash(&act, sizeof act, hh); hh = vh_hash(&c, sizeof c, hh); vh_distinct(hh);
                mqtt_session_data_t x; memset(&x, 0, sizeof x);
                int rc = mqtt_session_load("victim", &x);
                const mqtt_session_data_t* nw = touch ? &oldd : &newd;
                if (rc != 0) {
                    if (had) vh_viol("crash-lost", "%s at file system call %d of %s: neither the old nor the new session can be loaded", act <= KILL_PARTIAL ? "process killed" : "error", n, touch ? "a touch" : "a save");
                    else if (crc == 0) vh_viol("ack-lost", "save reported success but nothing can be loaded (error injected at call %d)", n);
                } else {
                    const char *wn = differ(nw, &x), *wo = had ? differ(&oldd, &x) : "no old session";
                    if (wn && wo) vh_viol("crash-mixed", "after fault at call %d the loaded session is neither the old one (%s) nor the new one (%s)", n, wo, wn);
                    if (crc == 0 && wn) vh_viol("ack-old", "save reported success but the old session is loaded");
                    rel(&x);
                }
                memset(&x, 0, sizeof x);
                rc = mqtt_session_load("bystander", &x);
                const char* w = rc ? "gone" : differ(&other, &x);
                if (w) vh_viol("bystander", "another client's session changed (%s) by a failed save", w);
                if (rc == 0) rel(&x);
                /* later saves must still work */
                if (mqtt_session_save("victim", &newd) != 0) vh_viol("after-crash", "no session can be saved after fault at call %d", n);
                else { memset(&x, 0, sizeof x); rc = mqtt_session_load("victim", &x); w = rc ? "load failed" : differ(&newd, &x); if (w) vh_viol("after-crash", "save after fault at call %d: %s", n, w); if (rc == 0) rel(&x); }
                if (t == -1) break;
            }
            if (c == 0) vh_sample("action %d enumerated over %d file system calls of one %s", act, total, touch ? "touch" : "save");
        }
        rel(&oldd); rel(&newd); rel(&other);
    }
}
/* ---- threads */
typedef struct { int i; uint64_t seed; } th_t;
static void* worker(void* a) {
    th_t* t = a; vh_rng r; vh_rng_seed(&r, t->seed); char id[32]; snprintf(id, sizeof id, "thr%d", t->i);
    mqtt_session_data_t cur; int has = 0;
    for (int s = 0; s < 60 && !vh_viol_count(); s++) {
        if (!has || vh_chance(&r, 40)) {
            mqtt_session_data_t d; gen(&r, &d, 1); d.session_expiry_interval = 0;
            if (mqtt_session_save(id, &d) != 0) { vh_viol("save", "concurrent save failed"); rel(&d); break; }
            if (has) rel(&cur);
            cur = d; has = 1;
        } else if (vh_chance(&r, 10)) { mqtt_session_delete(id); rel(&cur); has = 0; if (mqtt_session_exists(id)) vh_viol("delete", "deleted session exists"); }
        else if (vh_chance(&r, 10)) mqtt_session_cleanup_expired();
        else if (vh_chance(&r, 20)) { if (mqtt_session_update_access_time(id) != 0) vh_viol("touch", "update_access_time failed"); }
        else {
            mqtt_session_data_t x; memset(&x, 0, sizeof x);
            int rc = mqtt_session_load(id, &x); const char* w = rc ? "load failed" : differ(&cur, &x);
            if (w) vh_viol("concurrent-restore", "thread %d: %s", t->i, w);
            if (rc == 0) rel(&x);
            vh_count("restored", 1);
        }
    }
    if (has) rel(&cur);
    return NULL;
}
/* a touch racing with saves of the same client must never bring an older session back */
static int stop_touch;
static void* toucher(void* a) { (void)a; while (!__atomic_load_n(&stop_touch, __ATOMIC_RELAXED)) { mqtt_session_update_access_time("shared"); vh_usleep(30); } return NULL; }
static void threads(void) {
    for (long c = 0; c < vh_cases && vh_viol_count() < 3; c++) {
        wipe();
        pthread_t p[6], q; th_t t[6];
        for (int i = 0; i < 6; i++) { t[i] = (th_t){ i, vh_seed * 77 + (uint64_t)c * 10 + (uint64_t)i }; pthread_create(&p[i], 0, worker, &t[i]); }
        stop_touch = 0; pthread_create(&q, 0, toucher, NULL);
        vh_rng r; vh_rng_seed(&r, vh_seed + (uint64_t)c);
        for (int s = 0; s < 60 && !vh_viol_count(); s++) {
            mqtt_session_data_t d, x; gen(&r, &d, 1); d.session_expiry_interval = 0; d.last_packet_id = (uint32_t)s + 1; memset(&x, 0, sizeof x);
            if (mqtt_session_save("shared", &d) != 0) vh_viol("save", "save failed");
            vh_usleep((long)vh_below(&r, 200));
            int rc = mqtt_session_load("shared", &x); const char* w = rc ? "load failed" : differ(&d, &x);
            if (w) vh_viol("touch-undid-save", "save %d, then load while access times are updated: %s", s, w);
            if (rc == 0) rel(&x);
            rel(&d);
        }
        __atomic_store_n(&stop_touch, 1, __ATOMIC_RELAXED); pthread_join(q, 0);
        for (int i = 0; i < 6; i++) pthread_join(p[i], 0);
        vh_evals(1); vh_distinct(vh_hash(&c, sizeof c, vh_seed));
    }
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    snprintf(store, sizeof store, "%s/a", vh_dir); mkdir(store, 0755);
    snprintf(store, sizeof store, "%s/a/b", vh_dir); mkdir(store, 0755);
    snprintf(store, sizeof store, "%s/a/b/store", vh_dir);
    if (mqtt_session_persistence_init(store) != 0) { vh_viol("init", "init failed"); return vh_finish(); }
    if (!strcmp(vh_mode, "crash")) crashes();
    else if (!strcmp(vh_mode, "cut")) cuts();
    else if (!strcmp(vh_mode, "threads")) threads();
    else histories();
    mqtt_session_persistence_cleanup();
    return vh_finish();
}
