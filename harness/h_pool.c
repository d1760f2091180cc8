/* P01 and P02: the thread pool. */
#include "sim.h"
#include "mcp_thread_pool.h"
#include "mcp_log.h"
#include <stdio.h>
#include <string.h>

#define MAXT 160
enum { T_QUICK, T_YIELD, T_SLEEP, T_NEST, T_GATE };
typedef struct { int id, kind, accepted, rejected, execs, done, magic, by; u64 seq; } task_t;
static task_t *T;
static int ntask, gate_open, gate_in;
static mcp_thread_pool_t *pool;
static int submitters_left, total_per, destroying, in_flight;
static u64 sleep_max;
static int gated;

static int gate_ready(void *a) { (void)a; return gate_open; }
static void body(void *arg);
static task_t *new_task(int kind) {
    if (ntask >= MAXT) return 0;
    task_t *t = &T[ntask];
    t->id = ntask++; t->kind = kind; t->magic = 0x600d0000 + t->id;
    return t;
}
static int submit(task_t *t) {
    in_flight++;
    int r = mcp_thread_pool_add_task(pool, body, t);
    in_flight--;
    CHECK(r == 0 || r == -1, "bad-return", "submission returned %d", r);
    if (r == 0) { t->accepted = 1; } else { t->rejected = 1; sim_probe("submission refused"); }
    return r;
}
static void body(void *arg) {
    task_t *t = arg;
    CHECK(t >= T && t < T + MAXT && t->magic == 0x600d0000 + t->id, "bad-argument", "a task ran with an argument nobody submitted");
    t->execs++;
    t->by = sim_self();
    CHECK(t->execs == 1, "twice", "task %d ran %d times", t->id, t->execs);
    switch (t->kind) {
    case T_YIELD: sim_yield(); sim_yield(); break;
    case T_SLEEP: sim_sleep_ns((u64)WR(1, 40) * MS * sleep_max); break;
    case T_NEST: {
        int n = (int)WR(1, 3);
        for (int i = 0; i < n; i++) { task_t *c = new_task((int)W(3)); if (c) { submit(c); if (destroying) sim_probe("submitted while destroying"); } }
        break;
    }
    case T_GATE: gate_in++; if (!gate_open) sim_block(gate_ready, 0, NEVER); break;
    }
    t->done = 1;
}
static void submitter(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        task_t *t = new_task((int)W(4));
        if (!t) break;
        int r = submit(t);
        if (r && !destroying) sim_sleep_ns((u64)WR(1, 5) * MS);
        if (W(6) == 1) sim_sleep_ns((u64)WR(1, 30) * MS);
    }
    submitters_left--;
}
static void resizer(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        u32 k = W(8);
        if (k == 7) mcp_thread_pool_auto_adjust(pool);
        else if (k == 6) mcp_thread_pool_smart_adjust(pool, 0);
        else mcp_thread_pool_resize(pool, WR(1, 6));
        size_t c = mcp_thread_pool_get_thread_count(pool);
        CHECK(c >= 1 && c <= 6, "thread-count", "thread count reported as %zu", c);
        if (W(3)) sim_sleep_ns((u64)WR(1, 60) * MS);
        sim_probe("resize");
    }
}
static void waiter(void *a) {
    int n = *(int *)a;
    for (int i = 0; i < n; i++) {
        u8 need[MAXT];
        int m = ntask, any = 0;
        for (int k = 0; k < m; k++) { need[k] = (u8)(T[k].accepted && !T[k].done); any |= need[k]; }
        static const unsigned tos[] = {0, 1, 5, 20, 100, 1000, 30000};
        unsigned to = tos[W(7)];
        if (!to && gated) to = 50;
        u64 s = sim_now();
        int r = mcp_thread_pool_wait(pool, to);
        u64 e = sim_now(), slack = sim_injected_since(s);
        if (r == 0) {
            for (int k = 0; k < m; k++) CHECK(!need[k] || T[k].done, "wait-early", "wait reported success while task %d, accepted before the call, had not finished", k);
            if (any) sim_probe("wait succeeded after waiting");
        } else if (!destroying) {
            CHECK(to != 0, "wait-spurious", "wait without time-out failed");
            CHECK(e - s >= (u64)to * MS, "wait-short", "wait with time-out %u ms gave up after %llu us", to, (unsigned long long)((e - s) / 1000));
            sim_probe("wait timed out");
        }
        if (to) CHECK(e - s <= (u64)to * MS + 2 * SEC + slack, "wait-long", "wait with time-out %u ms returned after %llu ms", to, (unsigned long long)((e - s) / MS));
        if (W(2)) sim_sleep_ns((u64)WR(1, 20) * MS);
    }
}
static int all_done(void *a) {
    (void)a;
    for (int i = 0; i < ntask; i++) if (T[i].accepted && !T[i].done) return 0;
    return 1;
}
static int no_submitters(void *a) { (void)a; return submitters_left == 0; }
static int stats_ok(void *a) {
    size_t acc = 0, s = 0, c = 0, f = 0, act = 0;
    for (int i = 0; i < ntask; i++) acc += (size_t)T[i].accepted;
    if (mcp_thread_pool_get_stats(pool, &s, &c, &f, &act)) return 0;
    if (a) sim_log("accepted %zu, reported submitted %zu completed %zu active %zu", acc, s, c, act);
    return s == acc && c == acc && act == 0;
}
typedef struct { int r, done; } dres_t;
static void destroyer(void *a) { dres_t *d = a; d->r = mcp_thread_pool_destroy(pool); d->done = 1; }

static void run(int with_wait) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    T = simh_calloc(MAXT, sizeof *T);
    ntask = gate_open = gate_in = destroying = in_flight = 0;
    sim_limit(1000 * SEC + 3000 * SEC, 4000000);
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_THREAD));
    static const size_t qs[] = {64, 1, 2, 4, 8};
    size_t workers = CR(1, 5), q = qs[C(5)];
    int nsub = (int)CR(1, 4), nres = with_wait ? (int)C(3) == 2 : (int)C(3) >= 1, nwait = with_wait ? (int)CR(1, 2) : (int)C(2);
    gated = (int)C(3) == 1;
    int drain = (int)C(2);
    sleep_max = C(3) == 2 ? 10 : 1;
    sim_oom_scope(1);
    pool = mcp_thread_pool_create(workers, q);
    sim_oom_scope(0);
    if (!pool) {
        CHECK(sim_get_rate(DK_OOM) || sim_get_rate(DK_THREAD), "create-failed", "pool of %zu workers was not created although nothing failed", workers);
        CHECK(sim_threads_alive() == 0, "thread-left", "failed creation left %d threads", sim_threads_alive());
        sim_probe("creation failed");
        return;
    }
    sim_set_rate(DK_THREAD, 0);
    int cnt[4], tid[16], nt = 0, rn = (int)CR(1, 5), wn = (int)CR(1, 4);
    submitters_left = nsub;
    for (int i = 0; i < nsub; i++) { cnt[i] = (int)CR(1, 10); tid[nt++] = sim_spawn(submitter, &cnt[i]); }
    if (nres) tid[nt++] = sim_spawn(resizer, &rn);
    for (int i = 0; i < nwait; i++) tid[nt++] = sim_spawn(waiter, &wn);
    if (gated) {
        /* destroy while other threads still submit; a task held by us keeps destroy from returning */
        task_t *g = new_task(T_GATE);
        if (g && submit(g) == 0) {
            sim_sleep_ns((u64)C(40) * MS);
            if (nres) { sim_join(tid[nsub]); }
            for (int i = nsub + nres; i < nt; i++) sim_join(tid[i]);
            destroying = 1;
            dres_t d = {0, 0};
            int dt = sim_spawn(destroyer, &d);
            sim_wait_until(no_submitters, 0, NEVER);
            for (int i = 0; i < nsub; i++) sim_join(tid[i]);
            sim_sleep_ns((u64)C(300) * MS);
            CHECK(!d.done || !(g->accepted && !g->done), "destroy-early", "destroy returned while a task was running");
            gate_open = 1;
            sim_faults_off();
            CHECK(sim_join_for(dt, 60 * SEC), "destroy-hang", "destroy did not return within 60 s after the last task could end");
            CHECK(d.r == 0, "destroy-failed", "destroy returned %d", d.r);
            sim_probe("destroyed while submitting");
            goto after;
        }
        gate_open = 1;
    }
    for (int i = 0; i < nt; i++) sim_join(tid[i]);
    if (drain) {
        sim_faults_off();
        CHECK(sim_wait_until(all_done, 0, 120 * SEC), "not-run", "an accepted task was not run within 120 s of an idle pool");
        CHECK(sim_poll_until(stats_ok, 0, 5 * SEC, 10 * MS) || stats_ok((void *)1), "counters", "counters of the idle pool disagree with the accepted tasks");
        if (with_wait) {
            u64 s = sim_now();
            int r = mcp_thread_pool_wait(pool, 1000);
            CHECK(r == 0, "wait-idle", "wait on an idle pool returned %d", r);
            CHECK(sim_now() - s < 500 * MS, "wait-idle-long", "wait on an idle pool took long");
            /* an idle pool runs a task without further submissions */
            sim_sleep_ns((u64)C(400) * MS);
            task_t *t = new_task(T_QUICK);
            if (t && submit(t) == 0) CHECK(sim_wait_until(all_done, 0, 5 * SEC), "idle-pool-stuck", "a task given to an idle pool was not run within 5 s");
            sim_probe("idle pool given a task");
        }
    }
    destroying = 1;
    {
        dres_t d = {0, 0};
        int dt = sim_spawn(destroyer, &d);
        if (!sim_join_for(dt, 20 * SEC)) sim_faults_off();
        CHECK(sim_join_for(dt, 100 * SEC), "destroy-hang", "destroy did not return");
        CHECK(d.r == 0, "destroy-failed", "destroy returned %d", d.r);
    }
after:
    CHECK(sim_threads_alive() == 0, "thread-left", "%d threads run after destroy returned", sim_threads_alive());
    int acc = 0, by[8] = {0}, nby = 0;
    for (int i = 0; i < ntask; i++) {
        task_t *t = &T[i];
        if (t->accepted) CHECK(t->execs == 1 && t->done, "lost", "accepted task %d ran %d times before destroy returned", i, t->execs);
        else CHECK(t->execs == 0, "refused-but-run", "refused task %d was run", i);
        acc += t->accepted;
        if (t->execs) { int k; for (k = 0; k < nby; k++) if (by[k] == t->by) break; if (k == nby && nby < 8) by[nby++] = t->by; }
    }
    if (acc >= 2 && (nby >= 2 || nsub >= 2)) sim_mark_nontrivial();
    sim_state((u64)acc << 16 | (u64)nby << 8 | (u64)workers << 4 | (u64)(nres << 1 | gated));
}
static void run_tasks(void) { run(0); }
static void run_wait(void) { run(1); }
#define REAL "thread pool (tasks, deques, workers, adjustment), locks and condition variables wrapper, logging"
#define STUB "kernel threads and clocks"
HARNESS(p01, "P01", "pool-tasks", run_tasks, REAL, STUB, "at least two tasks accepted and two worker or submitter threads involved", 1)
HARNESS(p02, "P02", "pool-wait", run_wait, REAL, STUB, "at least two tasks accepted and two worker or submitter threads involved", 1)
