/* Reference reader of event streams: any chunking, any line ends. */
#ifndef SSEREF_H
#define SSEREF_H
#include <stdlib.h>
#include <string.h>
typedef struct { char* p; size_t n, cap; } sse_buf;
static inline void sse_put(sse_buf* b, const char* p, size_t n) { if (b->cap - b->n < n + 1) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); } memcpy(b->p + b->n, p, n); b->n += n; b->p[b->n] = 0; }
static inline char* sse_text(sse_buf* b) { if (!b->p) sse_put(b, "", 0); return b->p; }
typedef struct sse_ref {
    sse_buf line, data, type, id; int cr, has_data, has_type, has_id; long retry;
    void (*event)(void* u, const char* id, const char* type, const char* data, size_t n); void* u;   /* id: the last one given so far, NULL when none; type NULL when none */
} sse_ref;
static inline void sse_line(sse_ref* s) {
    char* l = sse_text(&s->line); size_t n = s->line.n;
    if (!n) { if (s->has_data) s->event(s->u, s->has_id ? sse_text(&s->id) : NULL, s->has_type && s->type.n ? s->type.p : NULL, sse_text(&s->data), s->data.n); s->data.n = s->type.n = 0; s->has_data = s->has_type = 0; sse_text(&s->data)[0] = 0; return; }
    if (*l != ':') {
        char* c = memchr(l, ':', n); size_t fn = c ? (size_t)(c - l) : n; char* v = c ? c + 1 : l + n; if (c && *v == ' ') v++; size_t vn = n - (size_t)(v - l);
        if (fn == 4 && !memcmp(l, "data", 4)) { if (s->has_data) sse_put(&s->data, "\n", 1); sse_put(&s->data, v, vn); s->has_data = 1; }
        else if (fn == 5 && !memcmp(l, "event", 5)) { s->type.n = 0; sse_put(&s->type, v, vn); s->has_type = 1; }
        else if (fn == 2 && !memcmp(l, "id", 2)) { s->id.n = 0; sse_put(&s->id, v, vn); s->has_id = 1; }
    }
    s->line.n = 0;
}
static inline void sse_feed(sse_ref* s, const char* p, size_t n) {
    for (size_t i = 0; i < n; i++) { char c = p[i]; if (c == '\n' && s->cr) { s->cr = 0; continue; } s->cr = c == '\r'; if (c == '\n' || c == '\r') { sse_line(s); s->line.n = 0; } else sse_put(&s->line, &c, 1); }
}
static inline void sse_ref_free(sse_ref* s) { free(s->line.p); free(s->data.p); free(s->type.p); free(s->id.p); memset(s, 0, sizeof *s); }
#endif
