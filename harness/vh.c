#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>

uint64_t vh_seed = 1;
long vh_cases = 100;
const char* vh_mode = "";
const char* vh_dir = "/tmp";
int vh_thorough = 0;
static FILE* out;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long nviol, nevals, nsamples, ndist;
static struct { char name[64]; long n; } ctr[256];
static int nctr;
static uint64_t* set; static size_t setcap;

static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
void vh_init(int argc, char** argv) {
    const char* o = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) vh_seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--cases")) vh_cases = atol(argv[i + 1]);
        else if (!strcmp(argv[i], "--mode")) vh_mode = argv[i + 1];
        else if (!strcmp(argv[i], "--dir")) vh_dir = argv[i + 1];
        else if (!strcmp(argv[i], "--thorough")) vh_thorough = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--out")) o = argv[i + 1];
    }
    out = o ? fopen(o, "w") : stdout;
    if (!out) { perror("out"); exit(3); }
    setcap = 1 << 12; set = calloc(setcap, sizeof *set);
}
void vh_rng_seed(vh_rng* r, uint64_t seed) {
    uint64_t z = seed + 0x9e3779b97f4a7c15ULL;
    for (int i = 0; i < 2; i++) {
        z += 0x9e3779b97f4a7c15ULL;
        uint64_t x = z;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        r->s[i] = x ^ (x >> 31);
    }
    if (!r->s[0] && !r->s[1]) r->s[0] = 1;
}
uint64_t vh_next(vh_rng* r) {
    uint64_t a = r->s[0], b = r->s[1];
    r->s[0] = b; a ^= a << 23; r->s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return (r->s[1] + b) * 0x9e3779b97f4a7c15ULL >> 1;
}
uint64_t vh_hash(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = p;
    if (!h) h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h ? h : 1;
}
static void rec(const char* t, const char* sig, const char* fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    fprintf(out, "{\"t\":\"%s\",\"sig\":", t);
    jstr(out, sig); fprintf(out, ",\"msg\":"); jstr(out, buf); fprintf(out, "}\n");
    fflush(out);
}
void vh_viol(const char* sig, const char* fmt, ...) {
    pthread_mutex_lock(&mu);
    nviol++;
    if (nviol <= 20) { va_list ap; va_start(ap, fmt); rec("viol", sig, fmt, ap); va_end(ap); }
    pthread_mutex_unlock(&mu);
}
void vh_known(const char* id, const char* fmt, ...) {
    pthread_mutex_lock(&mu);
    va_list ap; va_start(ap, fmt); rec("known", id, fmt, ap); va_end(ap);
    pthread_mutex_unlock(&mu);
}
long vh_viol_count(void) { pthread_mutex_lock(&mu); long n = nviol; pthread_mutex_unlock(&mu); return n; }
void vh_note(const char* fmt, ...) {
    pthread_mutex_lock(&mu);
    va_list ap; va_start(ap, fmt); rec("note", "", fmt, ap); va_end(ap);
    pthread_mutex_unlock(&mu);
}
void vh_sample(const char* fmt, ...) {
    pthread_mutex_lock(&mu);
    if (nsamples < 6) { nsamples++; va_list ap; va_start(ap, fmt); rec("sample", "", fmt, ap); va_end(ap); }
    pthread_mutex_unlock(&mu);
}
void vh_count(const char* name, long n) {
    pthread_mutex_lock(&mu);
    int i;
    for (i = 0; i < nctr; i++) if (!strcmp(ctr[i].name, name)) break;
    if (i == nctr && nctr < 256) { snprintf(ctr[i].name, sizeof ctr[i].name, "%s", name); nctr++; }
    if (i < 256) ctr[i].n += n;
    pthread_mutex_unlock(&mu);
}
void vh_evals(long n) { __atomic_fetch_add(&nevals, n, __ATOMIC_RELAXED); }
bool vh_distinct(uint64_t h) {
    if (!h) h = 1;
    bool fresh = false;
    pthread_mutex_lock(&mu);
    if ((size_t)ndist * 2 >= setcap) {
        size_t nc = setcap * 2; uint64_t* ns = calloc(nc, sizeof *ns);
        for (size_t i = 0; i < setcap; i++) if (set[i]) {
            size_t j = set[i] & (nc - 1); while (ns[j]) j = (j + 1) & (nc - 1); ns[j] = set[i];
        }
        free(set); set = ns; setcap = nc;
    }
    size_t j = h & (setcap - 1);
    while (set[j] && set[j] != h) j = (j + 1) & (setcap - 1);
    if (!set[j]) { set[j] = h; ndist++; fresh = true; }
    pthread_mutex_unlock(&mu);
    return fresh;
}
int vh_finish(void) {
    pthread_mutex_lock(&mu);
    fprintf(out, "{\"t\":\"done\",\"evals\":%ld,\"viol\":%ld,\"ctr\":{", nevals, nviol);
    for (int i = 0; i < nctr; i++) { if (i) fputc(',', out); jstr(out, ctr[i].name); fprintf(out, ":%ld", ctr[i].n); }
    fprintf(out, "},\"ndist\":%ld,\"dist\":[", ndist);
    long k = 0;
    for (size_t i = 0; i < setcap && k < 200000; i++) if (set[i]) { fprintf(out, "%s\"%llx\"", k ? "," : "", (unsigned long long)set[i]); k++; }
    fprintf(out, "]}\n");
    fflush(out);
    long v = nviol;
    pthread_mutex_unlock(&mu);
    return v ? 1 : 0;
}
uint64_t vh_now_us(void) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000ULL + ts.tv_nsec / 1000;
}
void vh_high_fds(vh_rng* r) { if (vh_chance(r, 50)) { int n = open("/dev/null", O_RDONLY | O_CLOEXEC); while (n >= 0 && n < 1100) n = dup(n); } }
void vh_usleep(long us) {
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, NULL);
}
void vh_yield_noise(vh_rng* r) {
    switch (vh_below(r, 16)) {
    case 0: sched_yield(); break;
    case 1: { volatile int x = 0; for (uint64_t i = vh_below(r, 3000); i; i--) x++; } break;
    case 2: vh_usleep((long)vh_below(r, 120)); break;
    default: break;
    }
}
