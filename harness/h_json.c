// JSON reader/writer against an independent one; API edits against a model; message formatting.
#include "vj.h"
#include <stdio.h>
#include <stdlib.h>
#include "mcp_types.h"
#include "mcp_json.h"
#include "mcp_json_message.h"
#include "mcp_json_rpc.h"
#include "mcp_json_utils.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_log.h"

static char esc_out[400];
static const char* show(const char* s, size_t n) {
    size_t o = 0;
    for (size_t i = 0; i < n && o < sizeof esc_out - 8; i++) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127) esc_out[o++] = (char)c; else o += (size_t)sprintf(esc_out + o, "\\x%02x", c); }
    esc_out[o] = 0; return esc_out;
}
/* what the library holds, compared with what the reader holds */
static const char* diff(const vj* v, mcp_json_t* j) {
    if (!j) return "missing value";
    mcp_json_type_t t = mcp_json_get_type(j);
    /* the convenience accessors agree with the type and the value */
    if (mcp_json_is_null(j) != (v->t == VJ_NULL) || mcp_json_is_boolean(j) != (v->t == VJ_BOOL) || mcp_json_is_number(j) != (v->t == VJ_NUM) || mcp_json_is_string(j) != (v->t == VJ_STR) || mcp_json_is_array(j) != (v->t == VJ_ARR) || mcp_json_is_object(j) != (v->t == VJ_OBJ)) return "type predicate";
    if (mcp_json_number_value(j) != (v->t == VJ_NUM ? v->n : 0.0) || mcp_json_boolean_value(j) != (v->t == VJ_BOOL && v->b)) return "value accessor";
    { const char* s = mcp_json_string_value(j); if (v->t == VJ_STR ? !s || strlen(s) != v->sn || memcmp(s, v->s, v->sn) : s != NULL) return "value accessor"; }
    { bool b; double d; const char* s; if ((v->t != VJ_BOOL && mcp_json_get_boolean(j, &b) == 0) || (v->t != VJ_NUM && mcp_json_get_number(j, &d) == 0) || (v->t != VJ_STR && mcp_json_get_string(j, &s) == 0)) return "getter of another type"; }
    if (v->t != VJ_OBJ && (mcp_json_object_get_property(j, "key1") || mcp_json_object_has_property(j, "key1") || mcp_json_object_size(j) || mcp_json_object_delete_property(j, "key1") == 0)) return "member of a value that is no object";
    if (v->t != VJ_ARR && (mcp_json_array_get_item(j, 0) || mcp_json_array_get_size(j) > 0)) return "item of a value that is no array";
    switch (v->t) {
    case VJ_NULL: return t == MCP_JSON_NULL ? NULL : "null";
    case VJ_BOOL: { bool b; return t == MCP_JSON_BOOLEAN && mcp_json_get_boolean(j, &b) == 0 && (int)b == v->b ? NULL : "boolean"; }
    case VJ_NUM: { double d; return t == MCP_JSON_NUMBER && mcp_json_get_number(j, &d) == 0 && d == v->n ? NULL : "number"; }
    case VJ_STR: { const char* s; return t == MCP_JSON_STRING && mcp_json_get_string(j, &s) == 0 && s && strlen(s) == v->sn && !memcmp(s, v->s, v->sn) ? NULL : "string"; }
    case VJ_ARR:
        if (t != MCP_JSON_ARRAY || mcp_json_array_get_size(j) != (int)v->cnt) return "array size";
        for (size_t i = 0; i < v->cnt; i++) { const char* w = diff(v->v[i], mcp_json_array_get_item(j, (int)i)); if (w) return w; }
        return mcp_json_array_get_item(j, (int)v->cnt) || mcp_json_array_get_item(j, -1) ? "item outside the array" : NULL;
    default: {
        if (t != MCP_JSON_OBJECT) return "object";
        char** names = NULL; size_t n = 0;
        if (mcp_json_object_get_property_names(j, &names, &n) != 0) return "names";
        const char* w = NULL;
        if (n != vj_size(v) || mcp_json_object_size(j) != n) w = "object size";
        for (size_t i = 0; i < n; i++) { if (!w && !vj_get(v, names[i])) w = "invented member"; free(names[i]); }
        free(names);
        if (n < 12) for (size_t i = 0; i <= n && !w; i++) { const char* k = NULL; mcp_json_t* m = NULL; int rc = mcp_json_object_get_at(j, i, &k, &m); if ((rc == 0) != (i < n)) w = "member by index"; if (rc == 0) { vj* x = vj_get(v, k); if (!x || !m || (x->t == VJ_OBJ || x->t == VJ_ARR ? mcp_json_is_array(m) != (x->t == VJ_ARR) : diff(x, m) != NULL)) w = "member by index"; free((void*)k); } }
        for (size_t i = 0; i < v->cnt && !w; i++) { if (!mcp_json_object_has_property(j, v->k[i])) w = "lost member"; else w = diff(vj_get(v, v->k[i]), mcp_json_object_get_property(j, v->k[i])); }
        return w; }
    }
}
static uint64_t shape(const vj* v) { uint64_t h = vh_hash(&v->t, 4, v->cnt); for (size_t i = 0; i < v->cnt; i++) h = vh_hash(&h, 8, shape(v->v[i]) ^ (v->k ? vh_hash(v->k[i], strlen(v->k[i]), 1) : 0)); if (v->t == VJ_STR) h = vh_hash(v->s, v->sn, h); if (v->t == VJ_NUM) h = vh_hash(&v->n, 8, h); return h; }
static void written(const vj* v, const char* out, const char* what, const char* src, size_t sn) {
    if (!out) { vh_viol("json:not-written", "%s of %s gives nothing", what, show(src, sn)); return; }
    vj_info in; vj* w = vj_parse(out, strlen(out), &in);
    if (!w || in.soft) { char a[400]; strcpy(a, show(out, strlen(out))); vh_viol("json:invalid-output", "%s wrote text that is not JSON: %s", what, a); vj_free(w); return; }
    if (!vj_eq(v, w)) { char a[400]; strcpy(a, show(src, sn)); vh_viol("json:changed", "%s changed the value: %s became %s", what, a, show(out, strlen(out))); }
    vj_free(w);
}
/* one text: must be read as the reader reads it, or refused if it is no document */
static int text(const char* s, size_t n, const char* origin) {
    vj_info in; vj* v = vj_parse(s, n, &in);
    mcp_json_t* j = mcp_json_parse(s);
    vh_count("documents read", 1);
    int ok = 0;
    if (memchr(s, 0, n)) { /* the interface takes C strings: nothing after a NUL is seen */ }
    else if (in.status == VJ_BAD) { vh_count("texts that are no document", 1); if (j) vh_viol("json:accepted", "%s: accepted although not a JSON document: %s", origin, show(s, n)); }
    else if (in.status == VJ_SOFT && in.ctrl) { if (j) vh_viol("json:accepted", "%s: accepted although a string contains a control character: %s", origin, show(s, n)); }
    else if (in.status == VJ_SOFT && j && in.depth <= 95 && diff(v, j)) vh_viol("json:misread", "%s: leniently read as something else (%s): %s", origin, diff(v, j), show(s, n));
    else if (in.status == VJ_REFUSED_OK || in.status == VJ_SOFT || in.depth > 95) vh_count("documents the reader may refuse", 1);
    else if (!j) vh_viol("json:refused", "%s: valid document refused: %s", origin, show(s, n));
    else {
        const char* w = diff(v, j);
        if (w) vh_viol("json:misread", "%s: read differently (%s): %s", origin, w, show(s, n));
        else {
            char* o = vh_seed % 3 ? mcp_json_stringify(j) : mcp_json_stringify_with_capacity(j, n % 50);
            written(v, o, "reading and writing", s, n);
            if (o) { mcp_json_t* k = mcp_json_parse(o); if (!k || diff(v, k)) vh_viol("json:not-stable", "what was written is not read back: %s", show(o, strlen(o))); mcp_json_destroy(k); }
            free(o);
            ok = 1;
        }
    }
    /* a value that was accepted is always writable as JSON again, whatever it was */
    if (j && !ok) { char* o = mcp_json_stringify(j); if (o) { vj_info i2; vj* w = vj_parse(o, strlen(o), &i2); if (!w) vh_viol("json:invalid-output", "%s: wrote text that is not JSON: %s", origin, show(o, strlen(o))); vj_free(w); } free(o); }
    mcp_json_destroy(j);
    vj_free(v);
    return ok;
}
static const char* toks[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "tru", "-", "0", "1.", ".5", "1e", "1e+", "\"a\"", "\\u12", "\\ud83d", "\\udc00", "\"\\ud83d\\ude00\"", "\"\\u0000\"", "//x", "NaN", "Infinity", "+1", "0x10", "'", "1e999", "-0", "00", "\xc3", "\xef\xbb\xbf", "\x01", "{\"a\":1,}", "[1,]", "[,]", "{,}", "\"\\x41\"", "1 2", "]]", "}}" };
static void mutate(vh_rng* r, sb* b) {
    for (int m = 1 + (int)vh_below(r, 3); m-- > 0;) {
        size_t at = vh_below(r, b->n + 1);
        switch (vh_below(r, 6)) {
        case 0: if (b->n) { b->n = at < b->n ? at : b->n; b->p[b->n] = 0; } break;
        case 1: if (at < b->n) { memmove(b->p + at, b->p + at + 1, b->n - at); b->n--; } break;
        case 2: case 3: { const char* t = toks[vh_below(r, sizeof toks / sizeof *toks)]; size_t l = strlen(t); sb_add(b, t, l); memmove(b->p + at + l, b->p + at, b->n - l - at); memcpy(b->p + at, t, l); break; }
        case 4: if (at < b->n) { b->p[at] = (char)(1 + vh_below(r, 255)); } break;
        case 5: if (b->n > 1) { size_t x = vh_below(r, b->n), l = 1 + vh_below(r, b->n - x > 20 ? 20 : b->n - x); char t[32]; memcpy(t, b->p + x, l); sb_add(b, t, l); memmove(b->p + at + l, b->p + at, b->n - l - at); memcpy(b->p + at, t, l); } break;
        }
    }
}
static void trip(vh_rng* r, long i) {
    vj* v = i % 700 == 350 ? vj_gen_wide(r) : vj_gen(r, 1 + (int)vh_below(r, 6)); sb b = {0}; if (v->cnt > 1000) vh_count("wide documents", 1);
    if (i % 40 == 7) { /* deep nesting, within what is allowed */ int d = 10 + (int)vh_below(r, 85); vj* x = v; for (int k = 0; k < d; k++) { vj* a = calloc(1, sizeof *a); a->t = k % 2 ? VJ_ARR : VJ_OBJ; a->cnt = 1; a->v = malloc(8); a->v[0] = x; if (a->t == VJ_OBJ) { a->k = malloc(8); a->k[0] = strdup("d"); } x = a; } v = x; }
    vj_write(v, r, &b);
    if (text(b.p, b.n, "generated")) vh_distinct(shape(v));
    if (i < 3) vh_sample("document %.160s", show(b.p, b.n));
    if (b.n < 200 && i % 3 == 0) for (size_t k = 0; k < b.n; k++) { char* t = strndup(b.p, k); text(t, k, "truncated"); free(t); vh_count("truncations", 1); }
    sb_free(&b); vj_free(v);
}
static void bad(vh_rng* r, long i) {
    sb b = {0};
    if (vh_chance(r, 15)) { sb_add(&b, "", 0); for (int k = (int)vh_below(r, 9); k-- > 0;) sb_s(&b, toks[vh_below(r, sizeof toks / sizeof *toks)]); }
    else { vj* v = vj_gen(r, (int)vh_below(r, 4)); vj_write(v, r, &b); vj_free(v); mutate(r, &b); }
    char* t = malloc(b.n + 1); memcpy(t, b.p, b.n + 1);            /* exact size, so over-reading is seen */
    text(t, strlen(t), "damaged"); vh_distinct(vh_hash(t, b.n, 3));
    if (i < 3) vh_sample("damaged text %.160s", show(t, b.n));
    free(t); sb_free(&b);
}
/* building and editing through the API */
static void edit(vh_rng* r, long i) {
    int obj = vh_chance(r, 70);
    mcp_json_t* j = obj ? (vh_chance(r, 50) ? mcp_json_object_create() : mcp_json_object_create_with_capacity(vh_below(r, 40))) : (vh_chance(r, 50) ? mcp_json_array_create() : mcp_json_array_create_with_capacity(vh_below(r, 40)));
    vj* m = calloc(1, sizeof *m); m->t = obj ? VJ_OBJ : VJ_ARR; m->v = calloc(400, 8); m->k = calloc(400, 8);
    int nk = 1 + (int)vh_below(r, 60), ops = (int)vh_below(r, 200); uint64_t h = (uint64_t)obj;
    for (int o = 0; o < ops; o++) {
        char key[40]; snprintf(key, sizeof key, vh_chance(r, 4) ? "" : vh_chance(r, 10) ? "k\xc3\xa9\"%d\n" : "key%d", (int)vh_below(r, (uint64_t)nk));
        size_t at = m->cnt; if (obj) for (size_t x = 0; x < m->cnt; x++) if (!strcmp(m->k[x], key)) at = x;
        if (obj && vh_chance(r, 25)) {
            int rc = mcp_json_object_delete_property(j, key);
            if ((rc == 0) != (at < m->cnt)) vh_viol("json:delete-result", "deleting a member %s gives %d", at < m->cnt ? "that exists" : "that does not exist", rc);
            if (at < m->cnt) { free(m->k[at]); vj_free(m->v[at]); m->cnt--; m->k[at] = m->k[m->cnt]; m->v[at] = m->v[m->cnt]; }
        } else {
            vj* v = vj_gen(r, 2); sb b = {0}; vj_write(v, NULL, &b);
            mcp_json_t* x; 
            if (v->t == VJ_STR) x = mcp_json_string_create(v->s); else if (v->t == VJ_NUM) x = mcp_json_number_create(v->n); else if (v->t == VJ_BOOL) x = mcp_json_boolean_create(v->b); else if (v->t == VJ_NULL) x = mcp_json_null_create(); else x = mcp_json_parse(b.p);
            sb_free(&b);
            if (vh_chance(r, 3)) { if (!mcp_json_array_add_item(x, NULL) || !mcp_json_object_set_property(x, "key", NULL) || !mcp_json_object_set_property(obj ? j : x, NULL, x) || !(obj ? mcp_json_array_add_item(j, x) : mcp_json_object_set_property(j, key, x))) vh_viol("json:accepted-misuse", "a value was stored where none can be"); }
            if (vh_chance(r, 10)) { if (mcp_json_increment_ref_count(x) < 0) vh_viol("json:refs", "a reference cannot be added"); mcp_json_destroy(x); const char* w = diff(v, x); if (w) vh_viol("json:refs", "a value with one reference left has changed: %s", w); }
            int rc = obj ? mcp_json_object_set_property(j, key, x) : mcp_json_array_add_item(j, x);
            if (rc != 0) { vh_viol("json:set-failed", "storing a value fails"); mcp_json_destroy(x); vj_free(v); }
            else if (at < m->cnt) { vj_free(m->v[at]); m->v[at] = v; }
            else { m->v[m->cnt] = v; m->k[m->cnt++] = strdup(obj ? key : ""); }
        }
        h = vh_hash(&at, 8, h) + (uint64_t)o;
        if (vh_chance(r, 8)) { const char* w = diff(m, j); if (w) { vh_viol("json:edit", "after %d edits of an %s the value differs: %s", o, obj ? "object" : "array", w); break; } }
    }
    const char* w = diff(m, j); if (w) vh_viol("json:edit", "after all edits the value differs: %s", w);
    char* o = mcp_json_stringify(j); written(m, o, "writing an edited value", "", 0); free(o);
    mcp_json_destroy(j);
    vh_distinct(h); vh_count("edits", ops); if (i < 2) vh_sample("%d edits of an %s, %zu left", ops, obj ? "object" : "array", m->cnt);
    if (!obj) { for (size_t x = 0; x < m->cnt; x++) free(m->k[x]); free(m->k); m->k = NULL; }
    vj_free(m);
}
/* messages made by the library are JSON-RPC objects saying what was asked for */
static vj* field(const char* out, const char* what) {
    if (!out) { vh_viol("msg:nothing", "%s gives nothing", what); return NULL; }
    vj_info in; vj* v = vj_parse(out, strlen(out), &in);
    if (!v || in.soft || v->t != VJ_OBJ) { vh_viol("msg:not-json", "%s is not a JSON object: %s", what, show(out, strlen(out))); vj_free(v); return NULL; }
    return v;
}
static void expect_str(vj* v, const char* k, const char* s, const char* what) { const char* g = vj_str(v, k); if (!g || strcmp(g, s)) vh_viol("msg:wrong-member", "%s: member %s is not what was given (%s)", what, k, show(s, strlen(s))); }
static void expect_num(vj* v, const char* k, double d, const char* what) { vj* g = vj_get(v, k); if (!g || g->t != VJ_NUM || g->n != d) vh_viol("msg:wrong-member", "%s: member %s is not %.17g", what, k, d); }
static void expect_val(vj* v, const char* k, vj* x, const char* what) { vj* g = vj_get(v, k); if (!g || !vj_eq(g, x)) vh_viol("msg:wrong-member", "%s: member %s is not the value given", what, k); }
static void msgs(vh_rng* r, long i) {
    char* s = vj_gen_str(r, NULL), * s2 = vj_gen_str(r, NULL); vj* p = vj_gen(r, 3); sb b = {0}; vj_write(p, r, &b);
    uint64_t id = vh_chance(r, 30) ? vh_next(r) & ((1ull << 53) - 1) : vh_below(r, 100000); if (!id) id = 1;
    int code = -32768 + (int)vh_below(r, 40000); if (!code) code = 1;
    char* o; vj* v;
#define M(call, what, body) do { o = call; v = field(o, what); if (v) { body } vj_free(v); free(o); vh_count("messages formatted", 1); } while (0)
    M(mcp_json_format_request(id, s, b.p), "request", { expect_str(v, "jsonrpc", "2.0", "request"); expect_str(v, "method", s, "request"); expect_num(v, "id", (double)id, "request"); expect_val(v, "params", p, "request"); });
    M(mcp_json_format_request_direct(id, s, b.p), "direct request", { expect_str(v, "jsonrpc", "2.0", "direct request"); expect_str(v, "method", s, "direct request"); expect_num(v, "id", (double)id, "direct request"); expect_val(v, "params", p, "direct request"); });
    M(mcp_json_create_request(s, b.p, id), "created request", { expect_str(v, "method", s, "created request"); expect_num(v, "id", (double)id, "created request"); expect_val(v, "params", p, "created request"); });
    M(mcp_json_format_response(id, b.p), "response", { expect_num(v, "id", (double)id, "response"); expect_val(v, "result", p, "response"); });
    M(mcp_json_create_response(id, b.p), "created response", { expect_num(v, "id", (double)id, "created response"); expect_val(v, "result", p, "created response"); });
    M(mcp_json_format_error_response(id, code, s), "error", { expect_num(v, "id", (double)id, "error"); expect_num(vj_get(v, "error"), "code", code, "error"); expect_str(vj_get(v, "error"), "message", s, "error"); });
    M(mcp_json_create_error_response(id, code, s), "created error", { expect_num(v, "id", (double)id, "created error"); expect_num(vj_get(v, "error"), "code", code, "created error"); expect_str(vj_get(v, "error"), "message", s, "created error"); });
    M(mcp_json_format_read_resource_params(s), "read parameters", { expect_str(v, "uri", s, "read parameters"); });
    M(mcp_json_format_call_tool_params(s, b.p), "call parameters", { expect_str(v, "name", s, "call parameters"); expect_val(v, "arguments", p, "call parameters"); });
    /* a string formatted on its own */
    o = mcp_json_format_string(s); { vj_info in; v = o ? vj_parse(o, strlen(o), &in) : NULL; if (!v || v->t != VJ_STR || strcmp(v->s, s)) vh_viol("msg:string", "formatting the string %s gives %s", show(s, strlen(s)), o ? o : "(nothing)"); vj_free(v); free(o); }
    /* messages through the message structures, both ways */
    mcp_message_t m; memset(&m, 0, sizeof m);
    int kind = (int)vh_below(r, 4);
    if (kind == 0) { m.type = MCP_MESSAGE_TYPE_REQUEST; m.request.id = id; m.request.method = s; m.request.params = b.p; }
    else if (kind == 1) { m.type = MCP_MESSAGE_TYPE_NOTIFICATION; m.notification.method = s; m.notification.params = b.p; }
    else if (kind == 2) { m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = id; m.response.error_code = code; m.response.error_message = s; }
    else { m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = id; m.response.result = b.p; }
    o = mcp_json_stringify_message(&m);
    v = field(o, "message");
    if (v) {
        mcp_message_t g; memset(&g, 0, sizeof g);
        int rc = mcp_json_parse_message(o, &g);
        int structured = p->t == VJ_OBJ || p->t == VJ_ARR;
        if (rc != 0) { if (kind >= 2 || structured) vh_viol("msg:not-read-back", "a written message is refused: %s", show(o, strlen(o))); }
        else {
            vj_info in;
            if (g.type != m.type) vh_viol("msg:kind", "a written message is read as another kind: %s", show(o, strlen(o)));
            else if (kind == 0 && (g.request.id != id || !g.request.method || strcmp(g.request.method, s))) vh_viol("msg:request", "request read back differently: %s", show(o, strlen(o)));
            else if (kind == 1 && (!g.notification.method || strcmp(g.notification.method, s))) vh_viol("msg:notification", "notification read back differently");
            else if (kind == 2 && (g.response.id != id || (int)g.response.error_code != code || !g.response.error_message || strcmp(g.response.error_message, s))) vh_viol("msg:error", "error read back differently: %s", show(o, strlen(o)));
            const char* pj = kind == 0 ? g.request.params : kind == 1 ? (char*)g.notification.params : kind == 3 ? (char*)g.response.result : NULL;
            if (kind != 2) { vj* q = pj ? vj_parse(pj, strlen(pj), &in) : NULL; if ((!q && (structured || kind == 3)) || (q && !vj_eq(q, p))) vh_viol("msg:payload", "payload read back differently: %s", show(o, strlen(o))); vj_free(q); }
        }
        mcp_message_release_contents(&g);
        if (kind >= 2) {
            uint64_t gid; mcp_error_code_t ec; char* em = NULL, * res = NULL;
            if (mcp_json_parse_response(o, &gid, &ec, &em, &res) != 0) vh_viol("msg:response-refused", "a written response is refused: %s", show(o, strlen(o)));
            else if (gid != id || (kind == 2 && ((int)ec != code || !em || strcmp(em, s))) || (kind == 3 && (ec != 0 || !res))) vh_viol("msg:response", "response read differently: %s", show(o, strlen(o)));
            free(em); free(res);
        }
    }
    vj_free(v); free(o);
    vh_distinct(vh_hash(s, strlen(s), shape(p))); if (i < 2) vh_sample("message with method %.60s", show(s, strlen(s)));
    free(s); free(s2); vj_free(p); sb_free(&b);
}
int main(int argc, char** argv) {
    vh_init(argc, argv);
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    mcp_arena_init_current_thread(64 * 1024);
    for (long i = 0; i < vh_cases && !vh_viol_count(); i++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 1000003 + (uint64_t)i);
        if (!strcmp(vh_mode, "trip")) trip(&r, i); else if (!strcmp(vh_mode, "bad")) bad(&r, i); else if (!strcmp(vh_mode, "edit")) edit(&r, i); else msgs(&r, i);
        mcp_arena_reset_current_thread();
        vh_evals(1);
    }
    mcp_arena_destroy_current_thread();
    return vh_finish();
}
