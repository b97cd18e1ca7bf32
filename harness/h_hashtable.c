/* P12: the hash table against a map model; every key and value released exactly once. */
#include "vh.h"
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
#include "mcp_log.h"
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

#define NK 400
#define NV 60000
static char skeys[NK][40]; static int ikeys[NK]; static char pblk[NK * 8];
static unsigned char vfreed[NV]; static int vn; static unsigned char vslot[NV];
static long kd, kf; static int kind, hashk, vfree_on;
static const void* K(int i) { return kind == 0 ? (void*)skeys[i] : kind == 1 ? (void*)&ikeys[i] : (void*)(pblk + 8 * i); }
static unsigned long H(const void* k) {
    unsigned long h = kind == 0 ? mcp_hashtable_string_hash(k) : kind == 1 ? mcp_hashtable_int_hash(k) : mcp_hashtable_ptr_hash(k);
    return hashk == 1 ? h & 7 : hashk == 2 ? 5 : hashk == 3 ? h << 6 : h;
}
static bool C(const void* a, const void* b) { return kind == 0 ? mcp_hashtable_string_compare(a, b) : kind == 1 ? mcp_hashtable_int_compare(a, b) : mcp_hashtable_ptr_compare(a, b); }
static void* D(const void* k) { kd++; return kind == 0 ? mcp_hashtable_string_dup(k) : kind == 1 ? mcp_hashtable_int_dup(k) : mcp_hashtable_ptr_dup(k); }
static void F(void* k) { kf++; if (kind == 0) mcp_hashtable_string_free(k); else if (kind == 1) mcp_hashtable_int_free(k); else mcp_hashtable_ptr_free(k); }
static void VF(void* v) {
    long i = (unsigned char*)v - vslot;
    if (i < 0 || i >= NV) { vh_viol("value-free-wild", "value_free got a pointer never stored"); return; }
    if (vfreed[i]++) vh_viol("value-freed-twice", "value %ld released twice", i);
}
static int model[NK];
typedef struct { int seen[NK]; int n; } fe_t;
static void cb(const void* key, void* v, void* u) {
    fe_t* f = u; f->n++;
    for (int i = 0; i < NK; i++) if (C(key, K(i))) {
        f->seen[i]++;
        if (f->seen[i] > 1) vh_viol("foreach-dup", "key %d visited twice", i);
        if (model[i] < 0 || (unsigned char*)v != &vslot[model[i]]) vh_viol("foreach-value", "iteration shows key %d with a value the model does not have", i);
        return;
    }
    vh_viol("foreach-unknown", "iteration shows an unknown key");
}
static mcp_hashtable_t* T; static int live; static uint64_t hist; static long ops;
static void put_model(int k, int v) {
    int old = model[k];
    model[k] = v; if (old < 0) live++;
    if (old >= 0 && vfree_on && !vfreed[old]) vh_viol("replaced-not-freed", "value replaced under key %d not released", k);
    if (vfree_on && vfreed[v]) vh_viol("new-freed", "just stored value was released");
}
static void rm_model(int k) {
    int old = model[k];
    if (old >= 0) { live--; if (vfree_on && !vfreed[old]) vh_viol("removed-not-freed", "removed value not released"); }
    model[k] = -1;
}
static void steps(vh_rng* r, int n) {
    for (int s = 0; s < n && vn < NV - 64; s++) {
        int k = (int)vh_below(r, NK), o = (int)vh_below(r, 100); void* v = NULL;
        ops++;
        hist = vh_hash(&o, sizeof o, hist); hist = vh_hash(&k, sizeof k, hist);
        if (o < 38) {
            int id = vn++;
            if (mcp_hashtable_put(T, K(k), &vslot[id]) != 0) { vh_viol("put", "put failed"); vfreed[id] = 1; }
            else put_model(k, id);
        } else if (o < 58) {
            int rc = mcp_hashtable_remove(T, K(k));
            if ((rc == 0) != (model[k] >= 0)) vh_viol("remove", "remove of key %d returned %d, model %s", k, rc, model[k] >= 0 ? "has it" : "does not have it");
            rm_model(k);
        } else if (o < 85) {
            int rc = mcp_hashtable_get(T, K(k), &v);
            if ((rc == 0) != (model[k] >= 0)) vh_viol("get", "get of key %d returned %d, model %s", k, rc, model[k] >= 0 ? "has it" : "does not have it");
            else if (rc == 0 && (unsigned char*)v != &vslot[model[k]]) vh_viol("get-value", "get of key %d gave another value than the last stored", k);
            if (mcp_hashtable_contains(T, K(k)) != (model[k] >= 0)) vh_viol("contains", "contains(key %d) disagrees with get", k);
        } else if (o < 90) {
            const void* ks[24]; void* vs[24]; int ki[24], n2 = 1 + (int)vh_below(r, 24), id0 = vn;
            for (int i = 0; i < n2; i++) { ki[i] = (int)vh_below(r, NK); ks[i] = K(ki[i]); vs[i] = &vslot[vn++]; }
            int rc = mcp_hashtable_put_batch(T, ks, vs, (size_t)n2);
            if (rc != n2) vh_viol("put-batch", "put_batch of %d stored %d", n2, rc);
            int seenk[NK]; memset(seenk, -1, sizeof seenk);
            for (int i = 0; i < n2; i++) seenk[ki[i]] = id0 + i;
            for (int i = 0; i < n2; i++) if (seenk[ki[i]] != id0 + i && vfree_on && !vfreed[id0 + i]) vh_viol("replaced-not-freed", "value replaced within a batch not released");
            for (int i = 0; i < NK; i++) if (seenk[i] >= 0) put_model(i, seenk[i]);
        } else if (o < 94) {
            const void* ks[24]; int ki[24], res[24], n2 = 1 + (int)vh_below(r, 24), want = 0;
            for (int i = 0; i < n2; i++) { ki[i] = (int)vh_below(r, NK); ks[i] = K(ki[i]); }
            int rc = mcp_hashtable_remove_batch(T, ks, (size_t)n2, res);
            for (int i = 0; i < n2; i++) {
                if ((res[i] == 0) != (model[ki[i]] >= 0)) vh_viol("remove-batch", "element %d: %d vs model", i, res[i]);
                if (model[ki[i]] >= 0) want++;
                rm_model(ki[i]);
            }
            if (rc != want) vh_viol("remove-batch", "count %d, expected %d", rc, want);
        } else if (o < 98) {
            const void* ks[24]; void* vs[24]; int ki[24], res[24], n2 = 1 + (int)vh_below(r, 24), want = 0;
            for (int i = 0; i < n2; i++) { ki[i] = (int)vh_below(r, NK); ks[i] = K(ki[i]); vs[i] = NULL; }
            int rc = mcp_hashtable_get_batch(T, ks, vs, (size_t)n2, res);
            for (int i = 0; i < n2; i++) {
                if ((res[i] == 0) != (model[ki[i]] >= 0)) vh_viol("get-batch", "element %d: %d vs model", i, res[i]);
                else if (res[i] == 0 && (unsigned char*)vs[i] != &vslot[model[ki[i]]]) vh_viol("get-batch-value", "element %d has another value", i);
                if (model[ki[i]] >= 0) want++;
            }
            if (rc != want) vh_viol("get-batch", "count %d, expected %d", rc, want);
        } else if (vh_chance(r, 10)) {
            mcp_hashtable_clear(T);
            for (int i = 0; i < NK; i++) rm_model(i);
        } else {
            fe_t f; memset(&f, 0, sizeof f);
            mcp_hashtable_foreach(T, cb, &f);
            if (f.n != live) vh_viol("foreach-count", "iteration visited %d entries, model has %d", f.n, live);
        }
        if (mcp_hashtable_size(T) != (size_t)live) { vh_viol("size", "size %zu, model %d after op %d", mcp_hashtable_size(T), live, o); return; }
        if (vh_viol_count() > 5) return;
    }
}
typedef struct { uint64_t seed; int n; } th_t;
static void* other(void* a) { th_t* t = a; vh_rng r; vh_rng_seed(&r, t->seed); steps(&r, t->n); return NULL; }
int main(int argc, char** argv) {
    vh_init(argc, argv); mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    bool pool = !strcmp(vh_mode, "pool");
    if (pool) mcp_memory_pool_system_init(64, 32, 16);
    for (long c = 0; c < vh_cases && vh_viol_count() < 5; c++) {
        vh_rng r; vh_rng_seed(&r, vh_seed * 7919 + (uint64_t)c);
        int ik = vh_chance(&r, 50);
        kind = (int)vh_below(&r, 3); hashk = vh_chance(&r, 60) ? 0 : (int)vh_below(&r, 4); vfree_on = vh_chance(&r, 80);
        for (int i = 0; i < NK; i++) {
            int l = snprintf(skeys[i], sizeof skeys[i], "%x", (unsigned)vh_below(&r, 60));
            for (int j = 0; j < (int)vh_below(&r, 12); j++) skeys[i][l++] = (char)(1 + vh_below(&r, 255));
            snprintf(skeys[i] + l, sizeof skeys[i] - (size_t)l, "#%d", i);
            if (i == 0 && vh_chance(&r, 50)) skeys[i][0] = 0;
            ikeys[i] = ik ? i - NK / 2 : i * 65536;
            model[i] = -1;
        }
        memset(vfreed, 0, sizeof vfreed); vn = 0; kd = kf = 0; live = 0; hist = 0; ops = 0;
        static const float lf[] = { 0.75f, 0.1f, 0.5f, 0.99f, 0.0f, 2.0f };
        size_t cap = vh_below(&r, 70);
        T = mcp_hashtable_create(cap, lf[vh_below(&r, 6)], H, C, D, F, vfree_on ? VF : NULL);
        if (!T) { vh_viol("create", "create failed"); break; }
        steps(&r, 200 + (int)vh_below(&r, 3000));
        if (vh_chance(&r, 50)) {
            for (int i = 0; i < 3; i++) { th_t t = { vh_next(&r), 400 }; pthread_t p; pthread_create(&p, 0, other, &t); pthread_join(p, 0); }
            steps(&r, 500);
        }
        int left = live; (void)left;
        mcp_hashtable_destroy(T);
        for (int i = 0; i < NK; i++) rm_model(i);
        if (vfree_on) for (int i = 0; i < vn; i++) if (vfreed[i] != 1) { vh_viol("value-leak", "value %d released %d times", i, vfreed[i]); break; }
        if (kd != kf) vh_viol("key-leak", "%ld keys duplicated, %ld released", kd, kf);
        vh_evals(1); vh_count("operations", ops); vh_count("values_stored", vn); vh_distinct(hist);
        if (c < 2) vh_sample("kind=%d hash=%d cap=%zu ops=%ld values=%d keys duplicated=%ld freed=%ld", kind, hashk, cap, ops, vn, kd, kf);
    }
    mcp_hashtable_system_cleanup();
    return vh_finish();
}
