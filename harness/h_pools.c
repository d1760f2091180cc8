/* P14: object pool, buffer pool, memory pool. */
#include "sim.h"
#include "mcp_object_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_object_cache.h"
#include "mcp_log.h"
#include <stdio.h>
#include <string.h>

enum { K_OBJ, K_BUF, K_MEM, K_GLOBAL, K_TC, K_OC };
typedef struct { u8 *p; size_t n; u8 pat; int pool; } lent_t;
#define MAXL 96
static lent_t L[MAXL];
typedef struct {
    int kind, alive, gen;
    void *h;
    size_t size, initial, max;
    int held;                /* lent plus calls in progress that may hold one */
    int calls; int *watch[8];
} pool_t;
static pool_t P[3];
static int npool;
static u64 acquired, handed;
static u32 seqno;

static void held_changed(pool_t *p) { for (int i = 0; i < 8; i++) if (p->watch[i] && *p->watch[i] < p->held) *p->watch[i] = p->held; }
static void pool_make(pool_t *p) {
    p->gen++;
    p->size = CR(1, 5) * 40 + C(9);
    p->initial = C(6);
    p->max = p->kind == K_BUF || p->kind >= K_GLOBAL ? 0 : C(2) ? CR(1, 7) : 0;
    if (p->kind == K_BUF && !p->initial) p->initial = 1;
    if (p->kind == K_MEM && p->max && p->initial > p->max) p->initial = p->max;
    if (p->kind == K_OBJ) p->h = mcp_object_pool_create(p->size, p->initial, p->max);
    else if (p->kind == K_BUF) p->h = mcp_buffer_pool_create(p->size, p->initial);
    else if (p->kind == K_MEM) p->h = mcp_memory_pool_create(p->size, p->initial, p->max);
    else p->h = (void *)1;
    CHECK(p->h || sim_get_rate(DK_OOM), "create-failed", "pool creation failed although memory was available");
    p->alive = p->h != 0;
    p->held = 0;
}
static void *raw_acquire(pool_t *p, size_t n) {
    return p->kind == K_OBJ ? mcp_object_pool_acquire(p->h) : p->kind == K_BUF ? mcp_buffer_pool_acquire(p->h) : p->kind == K_MEM ? mcp_memory_pool_alloc(p->h) : p->kind == K_TC ? mcp_thread_cache_alloc(n) :
           p->kind == K_OC ? mcp_object_cache_alloc(MCP_OBJECT_CACHE_STRING, n) : mcp_pool_alloc(n);
}
static int acquire(int pi, int must) {
    pool_t *p = &P[pi];
    size_t n = p->size;
    static const size_t gs[] = {1, 60, 256, 257, 1024, 1025, 4096, 5000};
    if (p->kind >= K_GLOBAL) n = gs[W(8)];
    int w, self = 0, most = p->held;
    for (self = 0; self < 8 && p->watch[self]; self++) {}
    if (self == 8) return -1;
    p->watch[self] = &most;
    p->held++; held_changed(p);
    w = most;
    u8 *q = raw_acquire(p, n);
    p->watch[self] = 0;
    (void)w;
    if (!q) {
        p->held--;
        CHECK(!must, "capacity-lost", "a pool with maximum %zu refused although only %d are lent", p->max, p->held);
        CHECK((p->max && most > (int)p->max) || sim_get_rate(DK_OOM), "refused", "a pool with maximum %zu refused although at most %d were lent", p->max, most - 1);
        sim_probe("acquire refused");
        return -1;
    }
    acquired++;
    CHECK(sim_heap_live(q, n), "dead-memory", "acquire returned memory that is not allocated");
    if (p->kind >= K_GLOBAL) { size_t bs = mcp_pool_get_block_size(q); CHECK(!bs || bs >= n, "too-small", "asked for %zu bytes, got a block of %zu", n, bs); }
    int cnt = 0, slot = -1;
    for (int i = 0; i < MAXL; i++) {
        if (!L[i].p) { if (slot < 0) slot = i; continue; }
        CHECK(q + n <= L[i].p || L[i].p + L[i].n <= q, "overlap", "acquire returned memory overlapping an object that is lent out");
        cnt += L[i].pool == pi;
    }
    if (p->max) CHECK(cnt + 1 <= (int)p->max, "over-max", "%d objects lent by a pool with maximum %zu", cnt + 1, p->max);
    CHECK(slot >= 0, "harness", "table full");
    L[slot] = (lent_t){q, n, (u8)(++seqno * 37 + 1), pi};
    memset(q, L[slot].pat, n);
    return slot;
}
static void release(int slot) {
    lent_t l = L[slot];
    pool_t *p = &P[l.pool];
    CHECK(sim_heap_live(l.p, l.n), "freed-while-lent", "a lent object was freed by its pool");
    for (size_t i = 0; i < l.n; i++) CHECK(l.p[i] == l.pat, "overwritten", "byte %zu of a lent object changed", i);
    L[slot].p = 0;
    if (p->kind == K_OBJ) CHECK(mcp_object_pool_release(p->h, l.p), "release-failed", "release failed");
    else if (p->kind == K_BUF) mcp_buffer_pool_release(p->h, l.p);
    else if (p->kind == K_MEM) CHECK(mcp_memory_pool_free(p->h, l.p), "release-failed", "release failed");
    else if (p->kind == K_TC) mcp_thread_cache_free(l.p, W(2) ? l.n : 0);
    else if (p->kind == K_OC) mcp_object_cache_free(MCP_OBJECT_CACHE_STRING, l.p, W(2) ? l.n : 0);
    else mcp_pool_free(l.p);
    p->held--;
}
static int basket[32], nbasket;       /* objects given to another thread for release */
static void user(void *a) {
    int n = *(int *)a, mine[8], m = 0, tc = (int)W(3);
    if (tc == 1) mcp_thread_cache_init();
    else if (tc == 2) {
        mcp_thread_cache_config_t c = {WR(0, 5), WR(0, 5), WR(0, 5), W(2), 0.5, 0.3, W(6), W(200), (int)W(2)};
        mcp_thread_cache_init_with_config(&c);
    }
    if (W(4) == 3) {
        mcp_object_cache_config_t c = {0};
        c.max_size = W(6); c.adaptive_sizing = W(2); c.growth_threshold = 0.5; c.shrink_threshold = 0.3; c.min_cache_size = W(3); c.max_cache_size = W(200);
        mcp_object_cache_init(MCP_OBJECT_CACHE_STRING, &c);
    }
    for (int i = 0; i < n; i++) {
        u32 k = W(8);
        if (k < 4 && m < 8) { int s = acquire((int)W((u32)npool), 0); if (s >= 0) mine[m++] = s; }
        else if (k < 6) { if (m) { int j = (int)W((u32)m), s = mine[j]; mine[j] = mine[--m]; release(s); } }
        else if (k == 6) { if (m && nbasket < 32) { basket[nbasket++] = mine[--m]; handed++; } }
        else if (nbasket) release(basket[--nbasket]);
        if (W(4) == 3) sim_sleep_ns(MS);
        if (W(30) == 29) { mcp_thread_cache_flush(); mcp_object_cache_flush(MCP_OBJECT_CACHE_STRING); }
    }
    while (m) release(mine[--m]);
    if (W(2)) { mcp_thread_cache_cleanup(); mcp_object_cache_system_shutdown(); }
}
static void fill_one(void *a) {
    int pi = *(int *)a, s[8], n = 0;
    pool_t *p = &P[pi];
    int want = p->max ? (int)p->max : (int)p->initial + 1;
    for (; n < want && n < 8; n++) s[n] = acquire(pi, 1);
    if (p->max && n == (int)p->max) CHECK(!raw_acquire(p, p->size), "over-max", "a pool with maximum %zu lent one more", p->max);
    while (n) release(s[--n]);
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(4000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_OOM));
    memset(L, 0, sizeof L); memset(P, 0, sizeof P);
    acquired = handed = 0; nbasket = 0; seqno = 0;
    npool = (int)CR(1, 3);
    sim_oom_scope(1);
    for (int i = 0; i < npool; i++) { P[i].kind = (int)C(6); pool_make(&P[i]); if (!P[i].alive) { npool = i; break; } }
    if (!npool) { sim_probe("creation failed"); return; }
    int rounds = (int)CR(1, 3), maxthr = 0;
    for (int r = 0; r < rounds; r++) {
        int n = (int)CR(1, 4), tid[4], cnt[4];
        if (n > maxthr) maxthr = n;
        for (int i = 0; i < n; i++) { cnt[i] = (int)CR(3, 16); tid[i] = sim_spawn(user, &cnt[i]); }
        for (int i = 0; i < n; i++) sim_join(tid[i]);
        while (nbasket) release(basket[--nbasket]);
        /* everything is back: the whole capacity can be lent again, by any thread */
        u32 oom = sim_get_rate(DK_OOM);
        sim_set_rate(DK_OOM, 0);
        for (int i = 0; i < npool; i++) {
            if (P[i].kind >= K_GLOBAL) continue;
            if (C(2)) { int t = sim_spawn(fill_one, &i); sim_join(t); } else fill_one(&i);
        }
        sim_set_rate(DK_OOM, oom);
        /* replace a pool */
        if (C(2)) {
            int i = (int)C((u32)npool);
            if (P[i].kind == K_OBJ) mcp_object_pool_destroy(P[i].h);
            else if (P[i].kind == K_BUF) mcp_buffer_pool_destroy(P[i].h);
            else if (P[i].kind == K_MEM) mcp_memory_pool_destroy(P[i].h);
            sim_probe("pool replaced");
            sim_set_rate(DK_OOM, 0);
            pool_make(&P[i]);
            sim_set_rate(DK_OOM, oom);
        }
    }
    for (int i = 0; i < npool; i++) {
        if (P[i].kind == K_OBJ) mcp_object_pool_destroy(P[i].h);
        else if (P[i].kind == K_BUF) mcp_buffer_pool_destroy(P[i].h);
        else if (P[i].kind == K_MEM) mcp_memory_pool_destroy(P[i].h);
    }
    if (acquired >= 4 && maxthr >= 2) sim_mark_nontrivial();
    sim_state(acquired << 16 | handed << 8 | (u64)npool);
}
HARNESS(p14, "P14", "pools", run, "object pool, buffer pool, memory pool, thread cache, object cache, lock wrappers", "kernel threads, heap allocator",
        "at least four objects were acquired and two threads used the pools at once", 2)
