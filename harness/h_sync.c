/* P03: mutexes, spinlocks, read-write locks, condition variables, timed waits. */
#include "sim.h"
#include "mcp_sync.h"
#include "mcp_rwlock.h"
#include "mcp_log.h"
#include "mcp_memory_pool.h"
#include <stdio.h>
#include <string.h>

static mcp_mutex_t *mx, *rmx, *cm;
static mcp_spinlock_t *sp;
static mcp_rwlock_t *rw;
static mcp_cond_t *cv;
static int mx_in, sp_in, rmx_owner, rmx_depth, rd_in, wr_in;
static int contended, nops;
static int items, consumed, produced, consumers_done, want;
/* waiters: every call of a condition wait is recorded */
typedef struct { int waiting, woken; u64 since; } wt_t;
static wt_t wts[8];
static u64 signals, bcasts;
static int flagged[8];

static void dwell(void) {
    u32 k = W(8);
    if (k < 3) sim_yield();
    else if (k == 3) sim_sleep_ns((u64)WR(1, 20) * MS);
    else if (k == 4) { sim_yield(); sim_yield(); sim_yield(); }
}
static void use_mutex(void) {
    CHECK(mcp_mutex_lock(mx) == 0, "lock-failed", "locking a mutex failed");
    CHECK(mx_in == 0, "mutex-shared", "two threads hold the mutex");
    mx_in++; dwell(); mx_in--;
    CHECK(mcp_mutex_unlock(mx) == 0, "unlock-failed", "unlocking a mutex failed");
}
static void use_recursive(void) {
    int n = (int)WR(1, 3), self = sim_self();
    for (int i = 0; i < n; i++) {
        CHECK(mcp_mutex_lock(rmx) == 0, "lock-failed", "locking a recursive mutex failed at depth %d", i);
        if (i == 0) CHECK(rmx_depth == 0, "recursive-shared", "two threads hold the recursive mutex");
        else CHECK(rmx_owner == self, "recursive-shared", "another thread entered a held recursive mutex");
        rmx_owner = self; rmx_depth++;
        dwell();
    }
    for (int i = 0; i < n; i++) {
        CHECK(rmx_owner == self && rmx_depth == n - i, "recursive-shared", "recursive mutex was entered while held");
        rmx_depth--;
        CHECK(mcp_mutex_unlock(rmx) == 0, "unlock-failed", "unlocking a recursive mutex failed");
        if (i + 1 < n) sim_yield();
    }
}
static void use_spin(void) {
    if (W(3) == 1) {
        int r = mcp_spinlock_trylock(sp);
        CHECK(r == 0 || r == 1, "trylock-return", "spinlock trylock returned %d", r);
        if (r) { sim_probe("trylock busy"); return; }
    } else CHECK(mcp_spinlock_lock(sp) == 0, "lock-failed", "locking a spinlock failed");
    CHECK(sp_in == 0, "spinlock-shared", "two threads hold the spinlock");
    sp_in++;
    sim_yield();
    if (W(12) == 11) sim_sleep_ns(2 * MS);
    sp_in--;
    CHECK(mcp_spinlock_unlock(sp) == 0, "unlock-failed", "unlocking a spinlock failed");
}
static void use_rw(void) {
    u32 k = W(6);
    if (k < 3) {
        if (k == 2) { if (!mcp_rwlock_try_read_lock(rw)) { sim_probe("try read busy"); return; } }
        else CHECK(mcp_rwlock_read_lock(rw), "lock-failed", "read lock failed");
        CHECK(wr_in == 0, "rwlock-shared", "a reader and a writer hold the lock");
        rd_in++;
        if (rd_in > 1) sim_probe("two readers");
        dwell();
        CHECK(wr_in == 0, "rwlock-shared", "a writer entered while a reader holds the lock");
        rd_in--;
        CHECK(mcp_rwlock_read_unlock(rw), "unlock-failed", "read unlock failed");
    } else {
        if (k == 5) { if (!mcp_rwlock_try_write_lock(rw)) { sim_probe("try write busy"); return; } }
        else CHECK(mcp_rwlock_write_lock(rw), "lock-failed", "write lock failed");
        CHECK(wr_in == 0 && rd_in == 0, "rwlock-shared", "a writer holds the lock together with %d readers and %d writers", rd_in, wr_in);
        wr_in++; dwell();
        CHECK(rd_in == 0, "rwlock-shared", "a reader entered while a writer holds the lock");
        wr_in--;
        CHECK(mcp_rwlock_write_unlock(rw), "unlock-failed", "write unlock failed");
    }
}
static void lock_user(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        switch (W(4)) { case 0: use_mutex(); break; case 1: use_rw(); break; case 2: use_spin(); break; case 3: use_recursive(); break; }
        nops++;
    }
}
static void consumer(void *a) {
    (void)a;
    for (;;) {
        mcp_mutex_lock(cm);
        while (items == 0 && consumed < want) {
            int r = mcp_cond_wait(cv, cm);
            CHECK(r == 0, "wait-failed", "condition wait returned %d", r);
        }
        if (items > 0) { items--; consumed++; if (consumed == want) mcp_cond_broadcast(cv); }
        int end = consumed >= want;
        mcp_mutex_unlock(cm);
        if (end) return;
    }
}
static void producer(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        mcp_mutex_lock(cm); items++; produced++; mcp_mutex_unlock(cm);
        CHECK((W(4) == 3 ? mcp_cond_broadcast(cv) : mcp_cond_signal(cv)) == 0, "signal-failed", "signal failed");
        dwell();
    }
}
/* timed waits without predicate: early time-outs, late time-outs, wake-ups without cause */
static void timed_waiter(void *a) {
    int me = *(int *)a & 7, n = *(int *)a >> 3;
    static const u32 tos[] = {1, 3, 10, 50, 200, 999, 1000, 1001, 1999, 3500, 61000};
    for (int i = 0; i < n; i++) {
        u32 to = W(60) == 1 ? (W(2) ? 4000000 : 70000000) : tos[W(11)];
        mcp_mutex_lock(cm);
        u64 s = sim_now(), sg = signals;
        wts[me].waiting = 1; wts[me].since = s; flagged[me] = 0;
        int r = mcp_cond_timedwait(cv, cm, to);
        wts[me].waiting = 0;
        u64 e = sim_now();
        CHECK(r == 0 || r == -2, "wait-failed", "timed wait returned %d", r);
        if (r == -2) {
            CHECK(e - s >= (u64)to * MS, "timeout-early", "timed wait of %u ms timed out after %llu us", to, (unsigned long long)((e - s) / 1000));
            sim_probe("timed wait timed out");
        } else {
            CHECK(signals != sg || sim_get_rate(DK_SPURIOUS), "wakeup-unsent", "timed wait reported a wake-up nobody sent");
            sim_probe("timed wait woken");
        }
        u64 slack = sim_injected_since(s);
        CHECK(e - s <= (u64)to * MS + 2 * SEC + slack, "timeout-late", "timed wait of %u ms returned after %llu ms", to, (unsigned long long)((e - s) / MS));
        if (flagged[me]) CHECK(r == 0 || e - s >= (u64)to * MS, "wakeup-lost", "a broadcast was not seen");
        mcp_mutex_unlock(cm);
        if (W(2)) dwell();
    }
}
static void timed_signaller(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        sim_sleep_ns((u64)WR(1, 400) * MS);
        mcp_mutex_lock(cm);
        u64 s = sim_now();
        int w[8], any = 0, all = W(2) == 1;
        for (int k = 0; k < 8; k++) any += w[k] = wts[k].waiting;
        signals++;
        if (all) mcp_cond_broadcast(cv); else mcp_cond_signal(cv);
        mcp_mutex_unlock(cm);
        if (!any) continue;
        /* within a bounded time one (all) of those waiting has left its wait */
        u64 end = s + 2 * SEC, slack;
        for (;;) {
            int left = 0;
            for (int k = 0; k < 8; k++) if (w[k] && (!wts[k].waiting || wts[k].since > s)) left++;
            if (all ? left == any : left >= 1) break;
            slack = sim_injected_since(s);
            CHECK(sim_now() < end + slack, "wakeup-lost", "%s sent to %d waiters woke %d of them within 2 s", all ? "a broadcast" : "a signal", any, left);
            sim_sleep_ns(20 * MS);
        }
        sim_probe(all ? "broadcast to waiters" : "signal to waiters");
    }
}
static void *plain_thread(void *a) { lock_user(a); return a; }

static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(9000000ull * SEC, 3000000);
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK));
    mx_in = sp_in = rmx_owner = rmx_depth = rd_in = wr_in = nops = items = consumed = produced = 0;
    signals = 0; memset(wts, 0, sizeof wts); memset(flagged, 0, sizeof flagged);
    if (C(4) == 1) mcp_memory_pool_system_init(4, 2, 1);
    mx = mcp_mutex_create(); rmx = mcp_recursive_mutex_create(); cm = mcp_mutex_create();
    sp = mcp_spinlock_create(); rw = mcp_rwlock_create(); cv = mcp_cond_create();
    CHECK(mx && rmx && cm && sp && rw && cv, "create-failed", "creating a lock failed");
    int mode = (int)C(3), cnt[10], tid[16], nt = 0;
    mcp_thread_t th[8]; int nth = 0;
    if (mode == 0) {
        int n = (int)CR(2, 5);
        for (int i = 0; i < n; i++) {
            cnt[i] = (int)CR(2, 12);
            if (i & 1) tid[nt++] = sim_spawn(lock_user, &cnt[i]);
            else { CHECK(mcp_thread_create(&th[nth], plain_thread, &cnt[i]) == 0, "thread-failed", "thread creation failed"); nth++; }
        }
        for (int i = 0; i < nth; i++) {
            void *rv = 0;
            CHECK(mcp_thread_join(th[i], &rv) == 0, "join-failed", "join failed");
            CHECK(rv == &cnt[2 * i], "join-value", "join returned another thread's value");
        }
        for (int i = 0; i < nt; i++) sim_join(tid[i]);
        sim_mark_nontrivial();
    } else if (mode == 1) {
        int np = (int)CR(1, 3), nc = (int)CR(1, 3);
        want = 0;
        for (int i = 0; i < np; i++) { cnt[i] = (int)CR(1, 8); want += cnt[i]; }
        for (int i = 0; i < nc; i++) tid[nt++] = sim_spawn(consumer, 0);
        for (int i = 0; i < np; i++) tid[nt++] = sim_spawn(producer, &cnt[i]);
        for (int i = 0; i < nt; i++) sim_join(tid[i]);
        CHECK(consumed == want && items == 0, "lost-item", "%d of %d items consumed", consumed, want);
        sim_mark_nontrivial();
    } else {
        int nw = (int)CR(1, 4), ns = (int)C(2);
        for (int i = 0; i < nw; i++) { cnt[i] = (int)CR(1, 5) << 3 | i; tid[nt++] = sim_spawn(timed_waiter, &cnt[i]); }
        cnt[8] = (int)CR(1, 6);
        if (ns) tid[nt++] = sim_spawn(timed_signaller, &cnt[8]);
        for (int i = 0; i < nt; i++) sim_join(tid[i]);
        sim_mark_nontrivial();
    }
    sim_state((u64)mode << 20 | (u64)nops << 10 | (u64)signals);
    mcp_mutex_destroy(mx); mcp_mutex_destroy(rmx); mcp_mutex_destroy(cm);
    mcp_spinlock_destroy(sp); mcp_rwlock_free(rw); mcp_cond_destroy(cv);
}
HARNESS(p03, "P03", "locks", run, "mutex, recursive mutex, spinlock, read-write lock, condition variable and thread wrappers, memory pool",
        "the kernel's mutexes, condition variables, threads and clocks", "the run completed its lock, producer/consumer or timed-wait workload with at least two threads", 1)
