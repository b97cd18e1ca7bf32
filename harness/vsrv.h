/* A server on an in-process transport, a generator of JSON-RPC traffic for it, and the oracle for its answers.
   What the handlers produce is a function of what they are called with, so every answer can be recomputed. */
#ifndef VSRV_H
#define VSRV_H
#include "vj.h"
#include "mcp_types.h"
#include "mcp_json.h"
#include "mcp_server.h"
#include "mcp_transport.h"
typedef struct { int type; char* mime; char* text; size_t n; } vs_item;
typedef struct { int status, is_error, n; vs_item it[48]; char* emsg; } vs_out;
enum { VS_PING, VS_TOOL, VS_TOOL_BAD, VS_READ, VS_READ_BAD, VS_LTOOLS, VS_LRES, VS_LTMPL, VS_UNKNOWN, VS_NOTE, VS_RESP, VS_INVALID, VS_METRICS, VS_KINDS };
#define VS_URIS 64
#define VS_NONCES (1 << 20)
typedef struct {
    mcp_server_t* srv; mcp_transport_t* tr;
    uint64_t seed;
    const char* key;                 /* configured API key or NULL */
    int tools, res, tmpl;            /* how many are registered (names follow from the index) */
    int tool_cap, res_cap;           /* capabilities */
    _Atomic(int) version[VS_URIS], calls_res[VS_URIS];   /* handler calls that produced content / all calls */
    _Atomic(long) tool_calls, res_calls, odd_calls;
    _Atomic(unsigned char)* nonce;   /* how often the tool handler saw each nonce */
    int slow_us;                     /* handlers take up to this long */
    _Atomic(int) in_handler;
    size_t limit;                    /* configured message limit, 0: the default */
} vs_world;
typedef struct {
    int kind; double id; long nonce; int auth;  /* auth: presents the right key (always 1 without a key) */
    char* name; vj* args; int uri;              /* tool name / arguments / URI index */
} vs_elem;
typedef struct { sb text; int batch, garbage, n, lastver, calls0, good0; vs_elem* e; long calls_before, res_before; } vs_msg;
typedef struct { int thread_pool, cache; size_t max_message; const char* key; int no_tools, no_res; size_t rl_window, rl_max; double tokens_per_second; size_t max_tokens; int adv_limit, bucket; int slow_us; int grace_ms; int prewarm; } vs_cfg;
vs_world* vs_open(vh_rng* r, const vs_cfg* c, mcp_transport_t* tr /* NULL: in-process */);
void vs_close(vs_world* w);
char* vs_send(vs_world* w, const void* p, size_t n, int* err);          /* in-process transport only */
void vs_gen(vs_world* w, vh_rng* r, vs_msg* m, int allow_garbage);
/* alone: no other message was in progress, so handler calls can be counted exactly */
void vs_check(vs_world* w, vs_msg* m, const char* resp, size_t rn, int alone);
int vs_answers(const vs_msg* m);                                        /* whether an answer is due */
void vs_forget_nonces(vs_world* w, const vs_msg* m);                      /* damaged messages may have carried the same ones */
void vs_msg_free(vs_msg* m);
uint64_t vs_canon(const vj* v);
void vs_outcome(vs_world* w, uint64_t h, int resource, vs_out* o);
void vs_out_free(vs_out* o);
void vs_uri(vs_world* w, int i, char* buf, size_t n);
void vs_thread_done(void);
void vs_tool_name(int i, char* b);
extern const char* const vs_kind_name[VS_KINDS];
#endif
