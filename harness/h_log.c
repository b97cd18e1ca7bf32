/* The log file: P33. Several threads log numbered messages, plain and structured, while the file is read back afterwards.
   mt: phases of fixed settings (format, level, quiet, file), changed only while nobody logs; every phase's lines are compared
   move: another thread moves the log from file to file meanwhile; each message is in at most one of them, whole */
#include "vj.h"
#include <stdatomic.h>
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mcp_log.h"

typedef struct { int level, structured; char* text; size_t n; char comp[40], event[40]; } msg;
typedef struct { int id, json; long n; msg* m; uint64_t seed; } teller;
static const char* names[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };
static _Atomic(int) stop;

static void make(vh_rng* r, teller* t, long i) {
    msg* m = &t->m[i]; sb b = {0}; sb_f(&b, "#%d.%ld#", t->id, i); size_t n = vh_chance(r, 85) ? vh_below(r, 120) : vh_chance(r, 50) ? 900 + vh_below(r, 300) : vh_below(r, 3000);
    static const char* odd[] = { "\n", "\r", "\t", "\"", "\\", "\x01", "\x1f", "\b", "{\"a\":1}", "%s%d%n", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "\x7f", "\x1b[31m" }; int heavy = vh_chance(r, 15), dense = vh_chance(r, 5);
    while (b.n < n + 8) { if (t->json && dense) sb_c(&b, (char)(1 + vh_below(r, 6))); else if (vh_chance(r, heavy ? 60 : 10)) { const char* o = odd[vh_below(r, 16)]; if (!t->json && (unsigned char)o[0] < 32) o = "."; sb_s(&b, o); } else sb_c(&b, "abcdefghij klmnop,:;[]{}"[vh_below(r, 24)]); }
    m->n = b.n; sb_c(&b, 0); m->text = b.p; m->level = (int)vh_below(r, 6); m->structured = vh_chance(r, 40);
    if (m->structured) { snprintf(m->comp, sizeof m->comp, "c%d%s", (int)vh_below(r, 9), t->json && vh_chance(r, 30) ? "\"\\\n" : ""); snprintf(m->event, sizeof m->event, "e%d", (int)vh_below(r, 9)); }
}
static void* tell(void* a) {
    teller* t = a; vh_rng r; vh_rng_seed(&r, t->seed);
    for (long i = 0; i < t->n; i++) { msg* m = &t->m[i]; if (m->structured) mcp_log_structured((mcp_log_level_t)m->level, m->comp, m->event, "%s", m->text); else mcp_log_log((mcp_log_level_t)m->level, "some/dir/source.c", (int)i + 1, "%s", m->text); if (vh_chance(&r, 5)) vh_usleep((long)vh_below(&r, 200)); }
    return NULL;
}
static char* slurp(const char* p, size_t* n) { FILE* f = fopen(p, "rb"); *n = 0; if (!f) return NULL; char* s = NULL; size_t cap = 0; for (;;) { if (cap - *n < 65536) s = realloc(s, cap = cap * 2 + 131072); size_t k = fread(s + *n, 1, 65536, f); if (!k) break; *n += k; } fclose(f); s[*n] = 0; return s; }
/* what a logged text may look like: all of it, or (if it is too long for the line) a beginning of it */
static int same(const char* got, size_t gn, const msg* m, size_t room) { if (gn == m->n && !memcmp(got, m->text, gn)) return 1; return m->n > room && gn <= m->n && gn >= 150 && !memcmp(got, m->text, gn); }
/* reads the lines from "from" on; last[t]: number of the thread's last message seen; seen counts */
static long judge(const char* file, size_t from, teller* ts, int nt, int json, long* last, unsigned char** seen) {
    size_t n; char* s = slurp(file, &n); long lines = 0; if (!s) { vh_viol("log:file", "the log file is missing"); return 0; } if (n < from) { vh_viol("log:appended", "the log file shrank from %zu to %zu bytes", from, n); free(s); return 0; }
    if (n > from && s[n - 1] != '\n') vh_viol("log:line", "the log file does not end with a whole line");
    for (char* p = s + from; p < s + n && vh_viol_count() < 5;) {
        char* e = memchr(p, '\n', (size_t)(s + n - p)); if (!e) break; *e = 0; size_t k = (size_t)(e - p); int id = -1; long i = -1; char* mark = strchr(p, '#'); const char* got = NULL; size_t gn = 0; vj* v = NULL;
        if (json) { vj_info vi; v = vj_parse(p, k, &vi); if (!v && vi.status != VJ_OK) { char tail[200]; snprintf(tail, sizeof tail, "%s", k > 150 ? p + k - 150 : p); vh_viol("log:json", "a line of %zu bytes is no JSON document, it ends: %s", k, tail); p = e + 1; continue; } vj* mm = v ? vj_get(v, "message") : NULL; if (!mm || mm->t != VJ_STR || !vj_str(v, "level") || !vj_str(v, "timestamp")) { vh_viol("log:fields", "a line has not all its members: %.200s", p); vj_free(v); p = e + 1; continue; } got = mm->s; gn = mm->sn; mark = mm->s; }
        if (!mark || sscanf(mark, "#%d.%ld#", &id, &i) != 2 || id < 0 || id >= nt || i < 0 || i >= ts[id].n) { if ((json ? got[0] == '#' : mark != NULL) || (!strstr(p, "Log") && !strstr(p, "log"))) vh_viol("log:line", "a line nobody logged: %.200s", p); if (v) vj_free(v); p = e + 1; continue; }      /* the logger's own notices */
        msg* m = &ts[id].m[i]; if (!json) { got = mark; gn = k - (size_t)(mark - p); }
        if (!same(got, gn, m, json ? 330 : 1022)) vh_viol("log:text", "message %d.%ld of %zu bytes came back with %zu bytes: %.200s", id, i, m->n, gn, p);
        if (json) { if (strcmp(vj_str(v, "level"), names[m->level])) vh_viol("log:level", "message %d.%ld of level %s is in the log with level %s", id, i, names[m->level], vj_str(v, "level")); if (m->structured && (!vj_str(v, "component") || strcmp(vj_str(v, "component"), m->comp) || !vj_str(v, "event") || strcmp(vj_str(v, "event"), m->event))) vh_viol("log:fields", "message %d.%ld has another component or event: %.200s", id, i, p); }
        else { char lv[16]; snprintf(lv, sizeof lv, "[%s]", names[m->level]); char* at = strstr(p, lv); if (!at || at > mark) vh_viol("log:level", "message %d.%ld of level %s: %.120s", id, i, names[m->level], p); char want[100]; if (m->structured) snprintf(want, sizeof want, "[%s|%s]", m->comp, m->event); else snprintf(want, sizeof want, "source.c:%ld]", i + 1); at = strstr(p, want); if (!at || at > mark) vh_viol("log:fields", "message %d.%ld: %.120s", id, i, p); }
        if (seen[id][i]++) vh_viol("log:twice", "message %d.%ld is in the log twice", id, i); else if (last && i < last[id]) vh_viol("log:order", "message %d.%ld comes after %d.%ld of the same thread", id, i, id, last[id]); if (last) last[id] = i;
        lines++; if (v) vj_free(v); p = e + 1;
    }
    free(s); return lines;
}
static teller* start(vh_rng* r, int nt, long each, int json) { teller* ts = calloc((size_t)nt, sizeof *ts); for (int t = 0; t < nt; t++) { ts[t] = (teller){ .id = t, .json = json, .n = each, .seed = vh_next(r) }; ts[t].m = calloc((size_t)each, sizeof(msg)); for (long i = 0; i < each; i++) make(r, &ts[t], i); } return ts; }
static void run(teller* ts, int nt) { pthread_t th[8]; for (int t = 0; t < nt; t++) pthread_create(&th[t], NULL, tell, &ts[t]); for (int t = 0; t < nt; t++) pthread_join(th[t], NULL); }
static void done(teller* ts, int nt, unsigned char** seen) { for (int t = 0; t < nt; t++) { for (long i = 0; i < ts[t].n; i++) free(ts[t].m[i].text); free(ts[t].m); free(seen[t]); } free(ts); }
static void m_mt(vh_rng* r) {
    long left = vh_cases; int phase = 0; char file[500] = ""; size_t from = 0;
    while (left > 0 && vh_viol_count() < 5) {
        int fresh = !file[0] || vh_chance(r, 40), json = vh_chance(r, 60), level = (int)vh_below(r, 6), quiet = vh_chance(r, 8), nt = 1 + (int)vh_below(r, 8); long each = 1 + (long)vh_below(r, 60);
        if (fresh) { snprintf(file, sizeof file, "%s/logs%d/a%s/x.log", vh_dir, phase, vh_chance(r, 50) ? "/b/c" : ""); from = 0; }
        mcp_log_set_quiet(false); mcp_log_set_format(json ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT); if (fresh || vh_chance(r, 30)) { if (mcp_log_init(file, (mcp_log_level_t)level)) { vh_viol("log:init", "no log file %s", file); return; } } else mcp_log_set_level((mcp_log_level_t)level);
        if (mcp_log_get_level() != (mcp_log_level_t)level) vh_viol("log:get-level", "level %d set, %d returned", level, mcp_log_get_level());
        mcp_log_set_color(vh_chance(r, 30)); mcp_log_set_quiet(quiet); { size_t n; char* s = slurp(file, &n); from = n; free(s); }
        teller* ts = start(r, nt, each, json); unsigned char* seen[8]; long last[8]; for (int t = 0; t < nt; t++) { seen[t] = calloc((size_t)each, 1); last[t] = -1; }
        run(ts, nt); long lines = judge(file, from, ts, nt, json, last, seen), want = 0;
        for (int t = 0; t < nt; t++) for (long i = 0; i < each && vh_viol_count() < 5; i++) { int due = !quiet && ts[t].m[i].level >= level; want += due; if (due && !seen[t][i]) vh_viol("log:lost", "message %d.%ld (level %s, from %s on, %s) is not in the log", t, i, names[ts[t].m[i].level], names[level], json ? "JSON" : "text"); if (!due && seen[t][i]) vh_viol("log:unwanted", "message %d.%ld (level %s) is in the log although %s", t, i, names[ts[t].m[i].level], quiet ? "it is quiet" : names[level]); }
        vh_evals(nt * each); vh_count("messages logged", nt * each); vh_count("lines compared", lines); vh_distinct(vh_hash(last, sizeof(long) * (size_t)nt, (uint64_t)(phase * 3 + json))); if (phase % 10 == 0) vh_sample("%d threads, %s, from %s on%s: %ld of %ld messages in the file", nt, json ? "JSON" : "text", names[level], quiet ? ", quiet" : "", want, nt * each);
        done(ts, nt, seen); left -= nt * each; phase++;
    }
    mcp_log_set_quiet(false); mcp_log_close();
}
typedef struct { char files[40][300]; int n; uint64_t seed; } mover;
static void* move(void* a) { mover* m = a; vh_rng r; vh_rng_seed(&r, m->seed); for (int i = 1; i < m->n && !atomic_load(&stop); i++) { vh_usleep((long)vh_below(&r, 3000)); if (vh_chance(&r, 20)) mcp_log_close(); if (mcp_log_init(m->files[i], MCP_LOG_LEVEL_TRACE)) vh_viol("log:init", "no log file %s", m->files[i]); } return NULL; }
static void m_move(vh_rng* r) {
    long left = vh_cases;
    for (int round = 0; left > 0 && vh_viol_count() < 5; round++) {
        int json = vh_chance(r, 60), nt = 1 + (int)vh_below(r, 8); long each = 20 + (long)vh_below(r, 150); mover mv = { .n = 2 + (int)vh_below(r, 30), .seed = vh_next(r) }; for (int i = 0; i < mv.n; i++) snprintf(mv.files[i], sizeof mv.files[i], "%s/m%d/f%d.log", vh_dir, round, i);
        mcp_log_set_format(json ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT); if (mcp_log_init(mv.files[0], MCP_LOG_LEVEL_TRACE)) { vh_viol("log:init", "no log file"); return; }
        teller* ts = start(r, nt, each, json); unsigned char* seen[8]; long last[8]; for (int t = 0; t < nt; t++) { seen[t] = calloc((size_t)each, 1); last[t] = -1; }
        atomic_store(&stop, 0); pthread_t th; pthread_create(&th, NULL, move, &mv); run(ts, nt); atomic_store(&stop, 1); pthread_join(th, NULL); mcp_log_close();
        long lines = 0; int used = 0; for (int i = 0; i < mv.n && vh_viol_count() < 5; i++) if (!access(mv.files[i], F_OK)) { lines += judge(mv.files[i], 0, ts, nt, json, last, seen); used++; }
        vh_evals(nt * each); vh_count("messages logged while the file moved", nt * each); vh_count("lines compared", lines); vh_count("files", used); vh_distinct(vh_hash(last, sizeof(long) * (size_t)nt, (uint64_t)lines)); if (round % 5 == 0) vh_sample("%ld of %ld messages in %d files", lines, nt * each, used); done(ts, nt, seen); left -= nt * each;
    }
}
int main(int argc, char** argv) {
    vh_init(argc, argv); vh_rng r; vh_rng_seed(&r, vh_seed); stderr = fopen("/dev/null", "w");
    if (!strcmp(vh_mode, "move")) m_move(&r); else m_mt(&r);
    return vh_finish();
}
