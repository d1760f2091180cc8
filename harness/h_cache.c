/* P12: the resource cache against a map with expiry. */
#include "sim.h"
#include "mcp_cache.h"
#include "mcp_types.h"
#include "mcp_object_pool.h"
#include "mcp_log.h"
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

enum { PUT, GET, INV, PRUNE };
typedef struct { int kind, key, ver, ok, oom; i64 ttl; u64 a, b; } op_t;   /* ttl in ns, -1 never */
#define NOPS 1024
static op_t ops[NOPS];
static int nops, nver;
static mcp_resource_cache_t *cache;
static mcp_object_pool_t *pool;
static int nkeys, defttl;
static u32 capacity;
static int keys_put[64], distinct_keys;
static int pools, hits, misses, expired_seen;

static const char *key_name(int k, char *b) { sprintf(b, k % 2 ? "example://res/%d" : "k%d", k); return b; }
/* content of a version is a function of the version */
static int ver_items(int v) { return 1 + v % 3; }
static size_t ver_size(int v, int i) { return v % 13 == 5 && i == 0 ? (size_t)(v * 997 % 6000) : (size_t)((v * 7 + i * 13) % 40); }
static u8 ver_byte(int v, int i, size_t j) { return (u8)(v * 31 + i * 17 + (int)j * 3 + 1); }

static op_t *op_begin(int kind, int key) {
    if (nops >= NOPS) return 0;
    op_t *o = &ops[nops++];
    memset(o, 0, sizeof *o);
    o->kind = kind; o->key = key; o->a = sim_now(); o->b = NEVER;
    return o;
}
static op_t *do_put(int k, int ttl) {
    op_t *o = op_begin(PUT, k);
    if (!o) return 0;
    int v = ++nver, n = ver_items(v);
    o->ver = v;
    i64 t = ttl ? ttl : defttl;
    o->ttl = t <= 0 ? -1 : t * (i64)SEC;
    if (!keys_put[k]) { keys_put[k] = 1; distinct_keys++; }
    mcp_content_item_t it[3], *ip[3];
    static u8 buf[8][3][6000];      /* one per caller at a time */
    static u8 used[8];
    int slot = 0;
    while (slot < 7 && used[slot]) slot++;
    used[slot] = 1;
    u8 (*data)[6000] = buf[slot];
    char mime[3][32], kb[40];
    for (int i = 0; i < n; i++) {
        size_t sz = ver_size(v, i);
        for (size_t j = 0; j < sz; j++) data[i][j] = ver_byte(v, i, j);
        snprintf(mime[i], sizeof mime[i], "text/v%d.%d", v, i);
        it[i].type = (mcp_content_type_t)((v + i) % 3);
        it[i].mime_type = mime[i];
        it[i].data = sz ? data[i] : 0;
        it[i].data_size = sz;
        ip[i] = &it[i];
    }
    u64 f = sim_alloc_failed();
    int r = mcp_cache_put(cache, key_name(k, kb), pool, ip, (size_t)n, ttl);
    used[slot] = 0;
    o->oom = sim_alloc_failed() != f;
    o->ok = r == 0;
    o->b = sim_now();
    CHECK(o->ok || o->oom, "put-failed", "storing key %d failed without any allocation failing", k);
    return o;
}
static op_t *do_get(int k) {
    op_t *o = op_begin(GET, k);
    if (!o) return 0;
    char kb[40];
    mcp_content_item_t **c = 0;
    size_t n = 99;
    u64 f = sim_alloc_failed();
    int r = mcp_cache_get(cache, key_name(k, kb), pool, &c, &n);
    o->oom = sim_alloc_failed() != f;
    o->ok = r == 0;
    if (r == 0) {
        hits++;
        CHECK(n >= 1 && n <= 3 && c, "content-wrong", "hit on key %d has %zu items", k, n);
        int v = 0, part = -1;
        CHECK(c[0] && c[0]->mime_type && sscanf(c[0]->mime_type, "text/v%d.%d", &v, &part) == 2 && part == 0, "content-wrong",
              "hit on key %d: item 0 has type '%s'", k, c[0] && c[0]->mime_type ? c[0]->mime_type : "?");
        CHECK((int)n == ver_items(v), "content-wrong", "hit on key %d: version %d came back with %zu items instead of %d", k, v, n, ver_items(v));
        for (int i = 0; i < (int)n; i++) {
            char mime[32];
            snprintf(mime, sizeof mime, "text/v%d.%d", v, i);
            CHECK(c[i] && c[i]->mime_type && !strcmp(c[i]->mime_type, mime), "content-wrong", "hit on key %d: item %d is not of version %d", k, i, v);
            CHECK(c[i]->type == (mcp_content_type_t)((v + i) % 3), "content-wrong", "hit on key %d: item %d has another content type", k, i);
            CHECK(c[i]->data_size == ver_size(v, i), "content-wrong", "hit on key %d: item %d has %zu bytes instead of %zu", k, i, c[i]->data_size, ver_size(v, i));
            for (size_t j = 0; j < c[i]->data_size; j++)
                CHECK(((u8 *)c[i]->data)[j] == ver_byte(v, i, j), "content-wrong", "hit on key %d: byte %zu of item %d differs", k, j, i);
        }
        o->ver = v;
        /* hold on to it for a while: it must stay ours */
        if (W(4) == 3) {
            sim_sleep_ns((u64)WR(1, 30) * MS);
            for (int i = 0; i < (int)n; i++)
                for (size_t j = 0; j < c[i]->data_size; j++)
                    CHECK(((u8 *)c[i]->data)[j] == ver_byte(v, i, j), "content-changed", "content handed out for key %d changed while held", k);
        }
        for (size_t i = 0; i < n; i++) mcp_content_item_release_pooled(pool, c[i]);
        sim_free(c);
    } else misses++;
    o->b = sim_now();
    return o;
}
static void do_inv(int k) {
    op_t *o = op_begin(INV, k);
    if (!o) return;
    char kb[40];
    o->ok = mcp_cache_invalidate(cache, key_name(k, kb)) == 0;
    o->b = sim_now();
}
static void user(void *arg) {
    int n = (int)(intptr_t)arg;
    if (pools) {   /* as a worker that has handled a request before: its thread has used a table of its own */
        mcp_hashtable_t *own = mcp_hashtable_create(16, 0.75f, mcp_hashtable_string_hash, mcp_hashtable_string_compare, mcp_hashtable_string_dup, mcp_hashtable_string_free, 0);
        if (own) { mcp_hashtable_put(own, "a", (void *)1); mcp_hashtable_destroy(own); }
    }
    static const int ttls[] = {0, 1, 2, 5, -1};
    for (int i = 0; i < n; i++) {
        int k = (int)W((u32)nkeys);
        u32 w = W(10);
        if (w < 3) do_put(k, ttls[W(5)]);
        else if (w < 7) do_get(k);
        else if (w == 7) do_inv(k);
        else if (w == 8) { op_t *o = op_begin(PRUNE, -1); if (o) { mcp_cache_prune_expired(cache); o->b = sim_now(); } }
        u32 s = W(10);
        if (s == 1) sim_sleep_ns((u64)WR(1, 300) * MS);
        else if (s == 2) sim_sleep_ns(SEC + (u64)WR(0, 4) * MS - 2 * MS);
        else if (s == 3) sim_sleep_ns(2 * SEC);
        else if (s == 4) sim_sleep_ns(5 * SEC + (u64)WR(0, 4) * MS - 2 * MS);
    }
}
#define G (2 * MS)
static void judge(void) {
    for (int g = 0; g < nops; g++) {
        op_t *o = &ops[g];
        if (o->kind != GET || o->b == NEVER) continue;
        if (o->ok) {
            op_t *p = 0;
            for (int i = 0; i < nops; i++) if (ops[i].kind == PUT && ops[i].ver == o->ver) p = &ops[i];
            CHECK(p && p->key == o->key, "foreign-content", "key %d returned content stored under key %d", o->key, p ? p->key : -1);
            CHECK(p->a <= o->b, "foreign-content", "content was returned before it was stored");
            CHECK(p->ok || p->b == NEVER, "failed-put-visible", "a store of key %d that reported failure is visible", o->key);
            if (p->ttl >= 0) {
                CHECK(o->a < p->b + (u64)p->ttl + G, "expired-hit", "key %d was returned %.3f s after it was stored with a time to live of %.0f s",
                      o->key, (double)(o->a - p->a) / SEC, (double)p->ttl / SEC);
                if (o->a > p->a + (u64)p->ttl / 2) expired_seen = 1;
            }
            for (int i = 0; i < nops; i++) {
                op_t *x = &ops[i];
                if (x == p || x->key != o->key || x->a <= p->b || x->b == NEVER || x->b >= o->a) continue;
                if (x->kind == PUT && x->ok) sim_fail("stale-hit", "key %d returned version %d although version %d was stored completely after it and before the lookup", o->key, o->ver, x->ver);
                if (x->kind == INV) sim_fail("invalidated-hit", "key %d returned version %d although it was invalidated after being stored and before the lookup", o->key, o->ver);
                if (x->kind == GET && x->ok && x->ver != o->ver) {
                    for (int q = 0; q < nops; q++)
                        if (ops[q].kind == PUT && ops[q].ver == x->ver && ops[q].a > p->b)
                            sim_fail("stale-hit", "key %d went back from version %d to version %d", o->key, x->ver, o->ver);
                }
            }
        } else if (!o->oom && (u32)distinct_keys <= capacity) {
            /* some store of the key must have been in force throughout the lookup */
            for (int i = 0; i < nops; i++) {
                op_t *p = &ops[i];
                if (p->kind != PUT || p->key != o->key || !p->ok || p->b >= o->a) continue;
                if (p->ttl >= 0 && o->b + G >= p->a + (u64)p->ttl) continue;
                int other = 0;
                for (int j = 0; j < nops && !other; j++) {
                    op_t *x = &ops[j];
                    if (x == p || x->key != o->key || x->b < p->a || x->a > o->b) continue;
                    if (x->kind == INV) other = 1;
                    if (x->kind == PUT && (x->ok || x->b == NEVER) && x->ttl >= 0 && o->b + G >= x->a + (u64)x->ttl) other = 1;
                }
                CHECK(other, "lost-entry", "key %d is missing although it was stored %.3f s before (time to live %.0f s), not invalidated and the cache not full",
                      o->key, (double)(o->a - p->b) / SEC, p->ttl < 0 ? -1.0 : (double)p->ttl / SEC);
            }
        }
    }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(4000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_OOM) | F(DK_CLOCK));
    nops = nver = hits = misses = expired_seen = distinct_keys = 0;
    memset(keys_put, 0, sizeof keys_put);
    static const u32 caps[] = {1, 2, 3, 5, 8, 40, 100};
    capacity = caps[C(7)];
    static const int kk[] = {1, 2, 4, 8, 20, 60}, dt[] = {0, 1, 3, 60};
    nkeys = kk[C(6)];
    defttl = dt[C(4)];
    pools = (int)C(2);
    if (pools) mcp_memory_pool_system_init(0, 0, 0);
    cache = mcp_cache_create(capacity, defttl);
    pool = mcp_object_pool_create(sizeof(mcp_content_item_t), C(2) ? 4 : 32, 0);
    if (!cache || !pool) { sim_probe("creation failed"); return; };
    sim_oom_scope(1);
    int n = (int)CR(1, 4), t[4], cnt = (int)CR(4, 40);
    for (int i = 0; i < n; i++) t[i] = sim_spawn(user, (void *)(intptr_t)cnt);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    judge();
    sim_faults_off();
    sim_oom_scope(0);
    nops = 0;
    /* never more entries than the capacity */
    int present = 0;
    for (int k = 0; k < nkeys; k++) { op_t *o = do_get(k); if (o && o->ok) present++; }
    CHECK((u32)present <= capacity, "over-capacity", "%d entries are present, the capacity is %u", present, capacity);
    sim_state((u64)present << 8 | capacity);
    /* from empty, the whole capacity is usable */
    for (int k = 0; k < nkeys; k++) do_inv(k);
    for (int k = 0; k < nkeys; k++) { op_t *o = do_get(k); CHECK(!o || !o->ok, "invalidated-hit", "key %d is present after all keys were invalidated", k); }
    int fill = nkeys < (int)capacity ? nkeys : (int)capacity, first = (int)C((u32)nkeys);
    nops = 0;
    int vers[64];
    for (int i = 0; i < fill; i++) { op_t *o = do_put((first + i) % nkeys, -1); vers[i] = o ? o->ver : 0; }
    for (int i = 0; i < fill; i++) {
        op_t *o = do_get((first + i) % nkeys);
        CHECK(!o || (o->ok && o->ver == vers[i]), "lost-entry", "after storing %d keys in an empty cache of capacity %u, key %d of them is missing", fill, capacity, i);
    }
    /* one more than fits: the newest is there, the count stays within the capacity */
    if (nkeys > fill) {
        nops = 0;
        op_t *o = do_put((first + fill) % nkeys, -1), *g = do_get((first + fill) % nkeys);
        CHECK(g->ok && g->ver == o->ver, "lost-entry", "the entry just stored in a full cache is missing");
        present = 0;
        for (int k = 0; k < nkeys; k++) { op_t *q = do_get(k); if (q && q->ok) present++; }
        CHECK((u32)present <= capacity, "over-capacity", "%d entries are present, the capacity is %u", present, capacity);
        CHECK((u32)present == capacity, "lost-entry", "storing one key in a full cache of capacity %u left %d entries", capacity, present);
        sim_probe("eviction");
    }
    /* pruning takes what has expired, all of it, and nothing else */
    for (int k = 0; k < nkeys; k++) do_inv(k);
    nops = 0;
    u64 lasting = (u64)C(0x7fffffff) << 31 | C(0x7fffffff);
    if (C(3) == 1) lasting = 0;
    int dead = 0;
    for (int i = 0; i < fill; i++) {
        int l = lasting >> i & 1;
        op_t *o = do_put((first + i) % nkeys, l ? -1 : 1 + i % 2);
        vers[i] = o ? o->ver : 0;
        dead += !l;
    }
    sim_sleep_ns(4 * SEC);
    size_t gone = mcp_cache_prune_expired(cache);
    CHECK((int)gone == dead, "prune-count", "pruning removed %d entries, %d of %d had expired", (int)gone, dead, fill);
    if (dead > 16) sim_probe("many expired at once");
    for (int i = 0; i < fill; i++) {
        op_t *o = do_get((first + i) % nkeys);
        if (lasting >> i & 1) CHECK(!o || (o->ok && o->ver == vers[i]), "lost-entry", "a key without end of life is missing after pruning");
        else CHECK(!o || !o->ok, "expired-hit", "a key is present 2 s after its end of life");
    }
    mcp_cache_destroy(cache);
    mcp_object_pool_destroy(pool);
    if (pools) mcp_memory_pool_system_cleanup();
    if (expired_seen) sim_probe("hit late in its life");
    if (hits && misses && n >= 2) sim_mark_nontrivial();
}
HARNESS(p12, "P12", "cache", run, "resource cache, hash table, list, object pool, read-write lock, content items", "kernel threads, clocks, heap allocator",
        "hits and misses both occurred and at least two threads used the cache", 1)
MEMORY_HARNESS(p12_mem, "memory-cache", run,
        "resource cache, hash table, list, object pool, read-write lock, content items",
        "kernel threads, clocks, heap allocator", 1)
