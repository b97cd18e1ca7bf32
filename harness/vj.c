#include "vj.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <math.h>
void sb_add(sb* b, const char* s, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); }
    memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
void sb_s(sb* b, const char* s) { sb_add(b, s, strlen(s)); }
void sb_f(sb* b, const char* fmt, ...) { char t[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(t, sizeof t, fmt, a); va_end(a); if (n < (int)sizeof t) { sb_add(b, t, (size_t)n); return; } char* l = malloc((size_t)n + 1); va_start(a, fmt); vsnprintf(l, (size_t)n + 1, fmt, a); va_end(a); sb_add(b, l, (size_t)n); free(l); }
void sb_free(sb* b) { free(b->p); b->p = NULL; b->n = b->cap = 0; }
void vj_free(vj* v) {
    if (!v) return;
    for (size_t i = 0; i < v->cnt; i++) { vj_free(v->v[i]); if (v->k) free(v->k[i]); }
    free(v->v); free(v->k); free(v->s); free(v);
}
static vj* mk(int t) { vj* v = calloc(1, sizeof *v); v->t = t; return v; }
static void push(vj* o, char* k, vj* v) {
    if ((o->cnt & (o->cnt + 1)) == 0 || o->cnt == 0) { size_t c = o->cnt ? (o->cnt + 1) * 2 : 4; o->v = realloc(o->v, c * sizeof(vj*)); if (o->t == VJ_OBJ) o->k = realloc(o->k, c * sizeof(char*)); }
    o->v[o->cnt] = v; if (o->t == VJ_OBJ) o->k[o->cnt] = k; o->cnt++;
}
typedef struct { const char* p, * e; vj_info* i; int bad; } ps;
static void ws(ps* s) { while (s->p < s->e && (*s->p == ' ' || *s->p == '\t' || *s->p == '\n' || *s->p == '\r')) s->p++; }
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int u4(ps* s, unsigned* out) { if (s->e - s->p < 4) return -1; unsigned v = 0; for (int i = 0; i < 4; i++) { int h = hex((unsigned char)s->p[i]); if (h < 0) return -1; v = v * 16 + (unsigned)h; } s->p += 4; *out = v; return 0; }
static void utf8(sb* b, unsigned c) {
    char t[4];
    if (c < 0x80) { t[0] = (char)c; sb_add(b, t, 1); }
    else if (c < 0x800) { t[0] = (char)(0xC0 | c >> 6); t[1] = (char)(0x80 | (c & 63)); sb_add(b, t, 2); }
    else if (c < 0x10000) { t[0] = (char)(0xE0 | c >> 12); t[1] = (char)(0x80 | (c >> 6 & 63)); t[2] = (char)(0x80 | (c & 63)); sb_add(b, t, 3); }
    else { t[0] = (char)(0xF0 | c >> 18); t[1] = (char)(0x80 | (c >> 12 & 63)); t[2] = (char)(0x80 | (c >> 6 & 63)); t[3] = (char)(0x80 | (c & 63)); sb_add(b, t, 4); }
}
static char* str(ps* s, size_t* n) {
    sb b = {0}; sb_add(&b, "", 0);
    s->p++;
    while (1) {
        if (s->p >= s->e) { s->bad = 1; break; }
        unsigned char c = (unsigned char)*s->p;
        if (c == '"') { s->p++; *n = b.n; return b.p; }
        if (c < 0x20) { s->i->soft = 1; if (!strchr("\t\n\r\b\f", (int)c)) s->i->ctrl = 1; if (c == 0) { s->bad = 1; break; } }
        if (c != '\\') { sb_c(&b, (char)c); s->p++; continue; }
        s->p++;
        if (s->p >= s->e) { s->bad = 1; break; }
        c = (unsigned char)*s->p++;
        switch (c) {
        case '"': case '\\': case '/': sb_c(&b, (char)c); break;
        case 'b': sb_c(&b, '\b'); break; case 'f': sb_c(&b, '\f'); break;
        case 'n': sb_c(&b, '\n'); break; case 'r': sb_c(&b, '\r'); break; case 't': sb_c(&b, '\t'); break;
        case 'u': {
            unsigned u, l;
            if (u4(s, &u)) { s->bad = 1; goto out; }
            if (u == 0) s->i->nul_esc = 1;
            if (u >= 0xD800 && u < 0xDC00) {
                if (s->e - s->p >= 6 && s->p[0] == '\\' && s->p[1] == 'u') {
                    const char* k = s->p; s->p += 2;
                    if (u4(s, &l)) { s->bad = 1; goto out; }
                    if (l >= 0xDC00 && l < 0xE000) u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                    else { s->i->lone = 1; s->p = k; }
                } else s->i->lone = 1;
            } else if (u >= 0xDC00 && u < 0xE000) s->i->lone = 1;
            utf8(&b, u);
            break; }
        default: s->bad = 1; goto out;
        }
    }
out:
    free(b.p); return NULL;
}
static vj* val(ps* s, int depth) {
    ws(s);
    if (depth > s->i->depth) s->i->depth = depth;
    if (s->p >= s->e || depth > 3000) { s->bad = 1; return NULL; }
    char c = *s->p;
    if (c == '"') { size_t n; char* q = str(s, &n); if (!q) return NULL; vj* v = mk(VJ_STR); v->s = q; v->sn = n; return v; }
    if (c == '[' || c == '{') {
        char close = c == '[' ? ']' : '}';
        vj* v = mk(c == '[' ? VJ_ARR : VJ_OBJ);
        s->p++; ws(s);
        if (s->p < s->e && *s->p == close) { s->p++; return v; }
        while (1) {
            char* k = NULL;
            ws(s);
            if (c == '{') {
                size_t n;
                if (s->p >= s->e || *s->p != '"' || !(k = str(s, &n))) { s->bad = 1; vj_free(v); return NULL; }
                if (strlen(k) != n) s->i->nul_esc = 1;
                ws(s);
                if (s->p >= s->e || *s->p != ':') { s->bad = 1; free(k); vj_free(v); return NULL; }
                s->p++;
            }
            vj* x = val(s, depth + 1);
            if (!x) { s->bad = 1; free(k); vj_free(v); return NULL; }
            push(v, k, x);
            ws(s);
            if (s->p < s->e && *s->p == ',') { s->p++; continue; }
            if (s->p < s->e && *s->p == close) { s->p++; return v; }
            s->bad = 1; vj_free(v); return NULL;
        }
    }
    static const struct { const char* w; int t, b; } lit[] = {{"null", VJ_NULL, 0}, {"true", VJ_BOOL, 1}, {"false", VJ_BOOL, 0}};
    for (int i = 0; i < 3; i++) { size_t n = strlen(lit[i].w); if ((size_t)(s->e - s->p) >= n && !memcmp(s->p, lit[i].w, n)) { s->p += n; vj* v = mk(lit[i].t); v->b = lit[i].b; return v; } }
    const char* a = s->p, * q = a;
    if (q < s->e && *q == '-') q++;
    const char* d0 = q;
    while (q < s->e && *q >= '0' && *q <= '9') q++;
    if (q == d0) { s->bad = 1; return NULL; }
    if (*d0 == '0' && q - d0 > 1) s->i->soft = 1;
    if (q < s->e && *q == '.') { q++; const char* f = q; while (q < s->e && *q >= '0' && *q <= '9') q++; if (f == q) { s->bad = 1; return NULL; } }
    if (q < s->e && (*q == 'e' || *q == 'E')) { q++; if (q < s->e && (*q == '+' || *q == '-')) q++; const char* f = q; while (q < s->e && *q >= '0' && *q <= '9') q++; if (f == q) { s->bad = 1; return NULL; } }
    char* t = strndup(a, (size_t)(q - a)); vj* v = mk(VJ_NUM); v->n = strtod(t, NULL); free(t);
    if (!isfinite(v->n)) s->i->range = 1;
    s->p = q;
    return v;
}
vj* vj_parse(const char* t, size_t n, vj_info* info) {
    vj_info dummy; if (!info) info = &dummy;
    memset(info, 0, sizeof *info);
    ps s = { t, t + n, info, 0 };
    vj* v = val(&s, 0);
    if (v) { ws(&s); if (s.p != s.e) { s.bad = 1; } }
    if (!v || s.bad) { vj_free(v); info->status = VJ_BAD; return NULL; }
    info->status = info->nul_esc || info->lone || info->range ? VJ_REFUSED_OK : info->soft ? VJ_SOFT : VJ_OK;
    return v;
}
vj* vj_get(const vj* o, const char* key) { if (!o || o->t != VJ_OBJ) return NULL; for (size_t i = o->cnt; i-- > 0;) if (!strcmp(o->k[i], key)) return o->v[i]; return NULL; }
const char* vj_str(const vj* o, const char* key) { vj* v = vj_get(o, key); return v && v->t == VJ_STR ? v->s : NULL; }
size_t vj_size(const vj* o) {
    if (o->t != VJ_OBJ) return o->cnt;
    size_t n = 0; for (size_t i = 0; i < o->cnt; i++) if (vj_get(o, o->k[i]) == o->v[i]) n++;
    return n;
}
int vj_eq(const vj* a, const vj* b) {
    if (a->t != b->t) return 0;
    switch (a->t) {
    case VJ_NULL: return 1;
    case VJ_BOOL: return a->b == b->b;
    case VJ_NUM: return a->n == b->n;
    case VJ_STR: return a->sn == b->sn && !memcmp(a->s, b->s, a->sn);
    case VJ_ARR: if (a->cnt != b->cnt) return 0; for (size_t i = 0; i < a->cnt; i++) if (!vj_eq(a->v[i], b->v[i])) return 0; return 1;
    default: if (vj_size(a) != vj_size(b)) return 0;
        for (size_t i = 0; i < a->cnt; i++) { vj* x = vj_get(a, a->k[i]), * y = vj_get(b, a->k[i]); if (!y || !vj_eq(x, y)) return 0; }
        return 1;
    }
}
char* vj_gen_str(vh_rng* r, size_t* n) {
    sb b = {0}; sb_add(&b, "", 0);
    size_t k = vh_chance(r, 10) ? 0 : vh_chance(r, 90) ? vh_below(r, 12) : vh_below(r, 700);
    int style = (int)vh_below(r, 5);
    for (size_t i = 0; i < k; i++) {
        unsigned c;
        switch (style == 4 ? vh_below(r, 8) : style == 3 ? vh_below(r, 2) : 0) {
        default: case 0: c = 'a' + (unsigned)vh_below(r, 26); break;
        case 1: c = 0x20 + (unsigned)vh_below(r, 95); break;
        case 2: c = 1 + (unsigned)vh_below(r, 31); break;
        case 3: { static const char sp[] = "\"\\/\b\f\n\r\t{}[]:,'<>&\x7f"; c = (unsigned char)sp[vh_below(r, sizeof sp - 1)]; break; }
        case 4: c = 0x80 + (unsigned)vh_below(r, 0x780); break;
        case 5: c = 0x800 + (unsigned)vh_below(r, 0xD000); break;
        case 6: c = 0xE000 + (unsigned)vh_below(r, 0x2000); break;
        case 7: c = 0x10000 + (unsigned)vh_below(r, 0x100000); break;
        }
        utf8(&b, c);
    }
    if (n) *n = b.n;
    return b.p;
}
static double gen_num(vh_rng* r) {
    switch (vh_below(r, 9)) {
    case 0: return (double)vh_below(r, 10); case 1: return -(double)vh_below(r, 100000);
    case 2: return (double)(int64_t)(vh_next(r) >> (11 + vh_below(r, 50))); case 3: return (double)vh_below(r, 1000000) / 1000.0;
    case 4: return 0.1 * (double)vh_below(r, 100); case 5: return (double)vh_next(r); case 6: return 0;
    case 7: { static const double t[] = {1e308, -1e308, 2.2250738585072014e-308, 5e-324, 9007199254740993.0, 9007199254740991.0, 1e15, 1e16, 123456789012345680.0, 0.30000000000000004, 1.0/3, -2147483649.0, 4294967296.0, 1e21, 1e-7}; return t[vh_below(r, sizeof t / sizeof *t)]; }
    default: { double d; do { uint64_t u = vh_next(r); memcpy(&d, &u, 8); } while (!isfinite(d)); return d; }
    }
}
vj* vj_gen(vh_rng* r, int depth) {
    int k = (int)vh_below(r, depth > 0 ? 8 : 5);
    vj* v;
    if (k == 0) return mk(VJ_NULL);
    if (k == 1) { v = mk(VJ_BOOL); v->b = (int)vh_below(r, 2); return v; }
    if (k == 2) { v = mk(VJ_NUM); v->n = gen_num(r); return v; }
    if (k <= 4) { v = mk(VJ_STR); v->s = vj_gen_str(r, &v->sn); return v; }
    v = mk(k == 5 || vh_chance(r, 15) ? VJ_ARR : VJ_OBJ);
    size_t n = vh_chance(r, 15) ? 0 : vh_chance(r, 92) ? 1 + vh_below(r, 5) : 1 + vh_below(r, depth > 2 ? 15 : 90);
    for (size_t i = 0; i < n; i++) {
        char* key = NULL;
        if (v->t == VJ_OBJ) { if (i && vh_chance(r, 8)) key = strdup(v->k[vh_below(r, i)]); else if (vh_chance(r, 70)) { key = malloc(24); snprintf(key, 24, "k%d", (int)vh_below(r, 200)); } else key = vj_gen_str(r, NULL); }
        push(v, key, vj_gen(r, depth - 1));
    }
    return v;
}
vj* vj_gen_wide(vh_rng* r) {
    vj* v = mk(vh_chance(r, 60) ? VJ_ARR : VJ_OBJ); size_t n = v->t == VJ_ARR ? 1 + vh_below(r, 20000) : 1 + vh_below(r, 2500);
    for (size_t i = 0; i < n; i++) { char* key = NULL; if (v->t == VJ_OBJ) { key = malloc(32); snprintf(key, 32, "w%zu", (i * 7919) % n); } push(v, key, i % 500 == 3 ? vj_gen(r, 2) : vj_gen(r, 0)); }
    return v;
}
static void sp(vh_rng* r, sb* b) { if (r && vh_chance(r, 15)) { static const char w[] = " \t\n\r"; for (int n = 1 + (int)vh_below(r, 3); n-- > 0;) sb_c(b, w[vh_below(r, 4)]); } }
void vj_write_str(const char* s, size_t n, vh_rng* r, sb* b) {
    sb_c(b, '"');
    for (size_t i = 0; i < n;) {
        unsigned char c = (unsigned char)s[i];
        unsigned cp = c; size_t l = 1;
        if (c >= 0xF0) { cp = c & 7; l = 4; } else if (c >= 0xE0) { cp = c & 15; l = 3; } else if (c >= 0xC0) { cp = c & 31; l = 2; }
        for (size_t k = 1; k < l; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
        const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '/' && r && vh_chance(r, 50) ? "\\/" : NULL;
        int esc = (r && vh_chance(r, 10)) || c < 0x20;
        if (sh && !(r && vh_chance(r, 20))) sb_s(b, sh);
        else if (esc || sh) {
            const char* f = r && vh_chance(r, 50) ? "\\u%04X" : "\\u%04x";
            if (cp >= 0x10000) { char t[8]; snprintf(t, sizeof t, f, 0xD800 + ((cp - 0x10000) >> 10)); sb_s(b, t); snprintf(t, sizeof t, f, 0xDC00 + ((cp - 0x10000) & 0x3FF)); sb_s(b, t); }
            else { char t[8]; snprintf(t, sizeof t, f, cp); sb_s(b, t); }
        } else sb_add(b, s + i, l);
        i += l;
    }
    sb_c(b, '"');
}
void vj_write(const vj* v, vh_rng* r, sb* b) {
    char t[64];
    sp(r, b);
    switch (v->t) {
    case VJ_NULL: sb_s(b, "null"); break;
    case VJ_BOOL: sb_s(b, v->b ? "true" : "false"); break;
    case VJ_NUM:
        if (fabs(v->n) < 1e15 && v->n == (double)(long long)v->n) { snprintf(t, sizeof t, "%lld", (long long)v->n); sb_s(b, t); if (r && vh_chance(r, 15)) sb_s(b, vh_chance(r, 50) ? ".0" : vh_chance(r, 50) ? "e0" : ".00E+00"); }
        else { snprintf(t, sizeof t, r && vh_chance(r, 30) ? "%.17E" : "%.17g", v->n); sb_s(b, t); }
        break;
    case VJ_STR: vj_write_str(v->s, v->sn, r, b); break;
    default:
        sb_c(b, v->t == VJ_ARR ? '[' : '{');
        for (size_t i = 0; i < v->cnt; i++) {
            if (i) sb_c(b, ',');
            if (v->t == VJ_OBJ) { sp(r, b); vj_write_str(v->k[i], strlen(v->k[i]), r, b); sp(r, b); sb_c(b, ':'); }
            vj_write(v->v[i], r, b);
        }
        sp(r, b);
        sb_c(b, v->t == VJ_ARR ? ']' : '}');
    }
    sp(r, b);
}
