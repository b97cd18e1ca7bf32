/* An independent JSON reader, writer and generator for the harnesses' oracles. */
#ifndef VJ_H
#define VJ_H
#include "vh.h"
#include <string.h>
typedef struct { char* p; size_t n, cap; } sb;
void sb_add(sb* b, const char* s, size_t n);
void sb_s(sb* b, const char* s);
void sb_f(sb* b, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static inline void sb_c(sb* b, char c) { sb_add(b, &c, 1); }
void sb_free(sb* b);
enum { VJ_NULL, VJ_BOOL, VJ_NUM, VJ_STR, VJ_ARR, VJ_OBJ };
typedef struct vj { int t; int b; double n; char* s; size_t sn; size_t cnt; struct vj** v; char** k; } vj;
/* reasons a text is not a document; the soft ones are things SupaMCP need not refuse */
enum { VJ_OK, VJ_BAD, VJ_SOFT, VJ_REFUSED_OK };
typedef struct { int status; int depth; int soft, ctrl; int nul_esc; int lone; int range; } vj_info;
vj* vj_parse(const char* s, size_t n, vj_info* info);    /* NULL unless status is VJ_OK */
vj* vj_get(const vj* o, const char* key);                /* last one wins */
int vj_eq(const vj* a, const vj* b);                     /* objects as maps, last one wins */
void vj_free(vj* v);
vj* vj_gen(vh_rng* r, int depth);
vj* vj_gen_wide(vh_rng* r);                              /* one array or object with thousands of entries */
char* vj_gen_str(vh_rng* r, size_t* n);                  /* valid UTF-8 without NUL */
void vj_write(const vj* v, vh_rng* r, sb* b);            /* r: random spelling; NULL: plain */
void vj_write_str(const char* s, size_t n, vh_rng* r, sb* b);
const char* vj_str(const vj* o, const char* key);        /* string member or NULL */
size_t vj_size(const vj* o);                             /* distinct members / items */
#endif
