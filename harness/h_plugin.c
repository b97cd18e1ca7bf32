/* Loading and unloading plugins (P28). Small plugins, complete or lacking something, are compiled into the scratch directory;
   they write down every call made to them in the record handed over as the server context. Logging is on (to nowhere), as in
   a deployed server, so that messages about a plugin are really formatted.
   seq: random histories of loads and unloads   mt: the same from several threads, each with its own files or sharing them */
// LINK: -ldl
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "vh.h"
#include "mcp_plugin.h"
#include "mcp_log.h"

typedef struct record { _Atomic(int) inits, finis, failed_inits; } record;
static const char* source =
"#include \"mcp_plugin.h\"\n#include <stdlib.h>\n#include <string.h>\n"
"typedef struct record { _Atomic(int) inits, finis, failed_inits; } record;\n"
"static record* rec; static char big[65536]; static const char nm[] = \"plugin-\" NAME;\n"
"static int init(void* c) { rec = c; memset(big, 1, sizeof big);\n#ifdef INITFAILS\n if (rec) rec->failed_inits++; return INITFAILS;\n#else\n if (rec) rec->inits++; return 0;\n#endif\n}\n"
"static int fini(void) { if (rec) rec->finis++;\n#ifdef FINIFAILS\n return FINIFAILS;\n#else\n return 0;\n#endif\n}\n"
"#ifdef HANDLERS\nstatic int tool(const char* n, const char* a, void* c, void** r, size_t* z, bool* e) { (void)c; *z = strlen(n) + strlen(a); *r = malloc(*z + 1); strcpy(*r, n); strcat(*r, a); *e = false; return 0; }\n#endif\n"
"static mcp_plugin_descriptor_t d = { nm, \"1\", \"a\", \"d\", init, fini, 0, 0 };\n"
"#ifndef NOSYMBOL\nconst mcp_plugin_descriptor_t* entry(void) __asm__(\"mcp_plugin_get_descriptor\");\nconst mcp_plugin_descriptor_t* entry(void) {\n"
"#ifdef NODESC\n return 0;\n#endif\n#ifdef NONAME\n d.name = 0;\n#endif\n#ifdef NOVERSION\n d.version = 0;\n#endif\n#ifdef NOINIT\n d.initialize = 0;\n#endif\n#ifdef NOFINI\n d.finalize = 0;\n#endif\n#ifdef BARE\n d.author = 0; d.description = 0;\n#endif\n"
"#ifdef HANDLERS\n d.handle_tool = tool;\n#endif\n return &d; }\n#endif\n";
typedef struct { const char* what; const char* flags; int good, fini; char path[400]; } kind;
static kind kinds[] = {
    { "complete", "", 1, 0, "" }, { "complete, other", "-DBARE", 1, 0, "" }, { "with handlers", "-DHANDLERS", 1, 0, "" }, { "failing finaliser", "-DFINIFAILS=7", 1, 7, "" }, { "failing finaliser, negative", "-DFINIFAILS=-3", 1, -3, "" },
    { "without the entry point", "-DNOSYMBOL", 0, 0, "" }, { "without a descriptor", "-DNODESC", 0, 0, "" }, { "without a name", "-DNONAME", 0, 0, "" }, { "without a version", "-DNOVERSION", 0, 0, "" },
    { "without an initialiser", "-DNOINIT", 0, 0, "" }, { "without a finaliser", "-DNOFINI", 0, 0, "" }, { "failing initialiser", "-DINITFAILS=1", 0, 0, "" }, { "failing initialiser, negative", "-DINITFAILS=-1", 0, 0, "" },
    { "not a library", NULL, 0, 0, "" }, { "empty", NULL, 0, 0, "" }, { "cut short", NULL, 0, 0, "" }, { "a directory", NULL, 0, 0, "" }, { "missing", NULL, 0, 0, "" } };
enum { KINDS = sizeof kinds / sizeof *kinds };
static void build(void) {
    const char* repo = getenv("VP_REPO"); if (!repo) repo = "/repo"; char p[512], cmd[2048]; snprintf(p, sizeof p, "%s/p.c", vh_dir); FILE* f = fopen(p, "w"); if (!f || fputs(source, f) < 0) { perror(p); exit(3); } fclose(f);
    for (int i = 0; i < KINDS; i++) { kind* k = &kinds[i]; snprintf(k->path, sizeof k->path, "%s/p%d.so", vh_dir, i);
        if (k->flags) { snprintf(cmd, sizeof cmd, "cc -shared -fPIC -O1 -w -DNAME='\"%d\"' %s -I'%s/include' -o '%s' '%s'", i, k->flags, repo, k->path, p); if (system(cmd) != 0) { fprintf(stderr, "cannot compile a plugin\n"); exit(3); } }
        else if (!strcmp(k->what, "a directory")) mkdir(k->path, 0700);
        else if (strcmp(k->what, "missing")) { f = fopen(k->path, "w"); if (!strcmp(k->what, "not a library")) fputs("#!/bin/sh\n", f); if (!strcmp(k->what, "cut short")) { FILE* g = fopen(kinds[0].path, "r"); char b[40]; size_t n = fread(b, 1, sizeof b, g); fwrite(b, 1, n, f); fclose(g); } fclose(f); } }
}
static int mapped(const char* path) { void* h = dlopen(path, RTLD_NOLOAD | RTLD_NOW); if (h) dlclose(h); return h != NULL; }
typedef struct { mcp_plugin_t* p; int k; record rec; } slot;
typedef struct { vh_rng r; kind* ks; int n, alone; uint64_t h; long loads, refusals, unloads; } life;
static void one(life* L, slot* s, int ns) {
    int i = (int)vh_below(&L->r, (uint64_t)ns); slot* x = &s[i];
    if (x->p) {
        const mcp_plugin_descriptor_t* d = mcp_plugin_get_descriptor(x->p); char want[32]; snprintf(want, sizeof want, "plugin-%d", x->k);
        if (!d || strcmp(d->name, want)) vh_viol("plugin:descriptor", "the descriptor of a loaded plugin (%s) is not its own", L->ks[x->k].what);
        if (d && d->handle_tool) { void* r = NULL; size_t z = 0; bool e = true; if (d->handle_tool("n", "a", NULL, &r, &z, &e) != 0 || z != 2 || e || memcmp(r, "na", 2)) vh_viol("plugin:handler", "a loaded plugin's handler answered wrongly"); free(r); }
        if (atomic_load(&x->rec.inits) != 1 || atomic_load(&x->rec.finis) != 0) vh_viol("plugin:calls", "a loaded plugin was initialised %d and finalised %d times", atomic_load(&x->rec.inits), atomic_load(&x->rec.finis));
        int rc = mcp_plugin_unload(x->p); x->p = NULL; L->unloads++;
        if ((rc != 0) != (L->ks[x->k].fini != 0)) vh_viol("plugin:unload-status", "unloading (%s) returned %d", L->ks[x->k].what, rc);
        if (atomic_load(&x->rec.inits) != 1 || atomic_load(&x->rec.finis) != 1) vh_viol("plugin:calls", "an unloaded plugin was initialised %d and finalised %d times", atomic_load(&x->rec.inits), atomic_load(&x->rec.finis));
        int others = 0; for (int j = 0; j < ns; j++) if (s[j].p && s[j].k == x->k) others = 1;
        if (L->alone && mapped(L->ks[x->k].path) != others) vh_viol("plugin:residue", "after unloading, the library (%s) is %s", L->ks[x->k].what, others ? "gone although loaded twice" : "still mapped");
    } else {
        int k = vh_chance(&L->r, 50) ? (int)vh_below(&L->r, 5) : (int)vh_below(&L->r, KINDS); kind* q = &L->ks[k];
        for (int j = 0; j < ns; j++) if (s[j].p && s[j].k == k) return;   /* one record per library */
        memset(&x->rec, 0, sizeof x->rec); mcp_plugin_t* p = mcp_plugin_load(q->path, &x->rec); L->h = vh_hash(&k, sizeof k, L->h);
        if (!!p != q->good) vh_viol(p ? "plugin:accepted" : "plugin:refused", "a plugin (%s) was %s", q->what, p ? "loaded" : "refused");
        if (p) { x->p = p; x->k = k; L->loads++; if (atomic_load(&x->rec.inits) != 1) vh_viol("plugin:calls", "loading initialised the plugin %d times", atomic_load(&x->rec.inits)); }
        else { L->refusals++; if (atomic_load(&x->rec.finis) || atomic_load(&x->rec.inits) || atomic_load(&x->rec.failed_inits) > 1) vh_viol("plugin:calls", "a refused plugin (%s) was initialised %d and finalised %d times", q->what, atomic_load(&x->rec.inits) + atomic_load(&x->rec.failed_inits), atomic_load(&x->rec.finis)); if (L->alone && q->flags && mapped(q->path)) vh_viol("plugin:residue", "a refused plugin (%s) stays mapped", q->what); }
    }
}
static void* run(void* a) {
    life* L = a; slot s[6]; memset(s, 0, sizeof s);
    for (int i = 0; i < L->n && vh_viol_count() < 5; i++) one(L, s, 6);
    for (int i = 0; i < 6; i++) if (s[i].p) { mcp_plugin_unload(s[i].p); L->unloads++; }
    return NULL;
}
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_DEBUG); vh_rng r; vh_rng_seed(&r, vh_seed); build();
    stderr = fopen("/dev/null", "w");   /* the stream only: sanitizers report to the descriptor */
    if (mcp_plugin_load(NULL, NULL) || mcp_plugin_unload(NULL) == 0 || mcp_plugin_get_descriptor(NULL)) vh_viol("plugin:null", "a missing path or handle was accepted");
    kind sets[4][KINDS]; memset(sets, 0, sizeof sets); int ns = strcmp(vh_mode, "mt") ? 1 : 4;
    for (int t = 0; t < ns; t++) { memcpy(sets[t], kinds, sizeof kinds); if (t) for (int i = 0; i < KINDS; i++) { char cmd[1200]; snprintf(sets[t][i].path, sizeof sets[t][i].path, "%.300s/t%d-p%d.so", vh_dir, t, i); snprintf(cmd, sizeof cmd, "test -f '%s' && cp '%s' '%s'", kinds[i].path, kinds[i].path, sets[t][i].path); if (system(cmd)) {} } }
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) { life L[4]; pthread_t th[4]; uint64_t h = 0; long loads = 0, ref = 0, un = 0;
        for (int t = 0; t < ns; t++) { memset(&L[t], 0, sizeof L[t]); vh_rng_seed(&L[t].r, vh_next(&r)); L[t].ks = sets[t]; L[t].n = 60; L[t].alone = 1; if (ns == 1) run(&L[t]); else pthread_create(&th[t], NULL, run, &L[t]); }
        for (int t = 0; t < ns; t++) { if (ns > 1) pthread_join(th[t], NULL); h = vh_hash(&L[t].h, 8, h); loads += L[t].loads; ref += L[t].refusals; un += L[t].unloads; }
        if (loads != un) vh_viol("plugin:conservation", "%ld loads and %ld unloads", loads, un);
        vh_evals(loads + ref + un); vh_distinct(h); vh_count("plugins loaded", loads); vh_count("plugins refused", ref); vh_count("plugins unloaded", un); vh_sample("%d threads: %ld loaded, %ld refused, %ld unloaded", ns, loads, ref, un); }
    return vh_finish();
}
