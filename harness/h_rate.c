/* P10: the basic rate limiter. */
#include "sim.h"
#include "mcp_rate_limiter.h"
#include "mcp_log.h"
#include <stdio.h>
#include <string.h>
#include <stdbool.h>

#define NCLI 64
#define NADM 4096
/* admissions and refusals with the interval in which they were decided */
typedef struct { u64 a, b; int ok, oom; } ev_t;
static ev_t ev[NCLI][NADM];
static int nev[NCLI];
static mcp_rate_limiter_t *rl;
static u32 window, max;
static int ncli, threads_n;
static char ids[NCLI][240];
static int refused, admitted_again;

static void ask(int c) {
    u64 a = sim_now();
    u64 s0 = sim_alloc_failed();
    bool r = mcp_rate_limiter_check(rl, ids[c]);
    u64 b = sim_now();
    if (nev[c] >= NADM) return;
    ev_t *e = &ev[c][nev[c]++];
    e->a = a; e->b = b; e->ok = r; e->oom = sim_alloc_failed() != s0;
    if (!r) refused++;
    sim_state(((u64)c << 8) ^ r);
}
static void asker(void *arg) {
    int n = (int)(intptr_t)arg;
    int style = (int)W(4);
    for (int i = 0; i < n; i++) {
        int c = (int)W((u32)ncli);
        if (style == 1) c = 0;
        if (style == 2) c = i % ncli;
        ask(c);
        u32 k = W(8);
        if (k == 1) sim_sleep_ns((u64)WR(1, 400) * MS);
        else if (k == 2) sim_sleep_ns((u64)window * SEC / WR(1, 4));
        else if (k == 3) sim_sleep_ns((u64)window * SEC - (u64)WR(0, 2) * MS);
        else if (k == 4) sim_sleep_ns((u64)window * SEC + (u64)WR(0, 2) * MS);
        else if (k == 5) sim_sleep_ns((u64)WR(1, 3) * MS);
    }
}
/* Windows: the first begins with the client's first admitted request and a new
 * one with the first admission after the window before has ended. Decisions are
 * known up to the interval of the call, so both ends carry that slack. */
static void judge(int c) {
    int n = nev[c];
    /* order by completion; exact for sequential callers */
    for (int i = 1; i < n; i++)
        for (int j = i; j > 0 && ev[c][j].a < ev[c][j - 1].a; j--) { ev_t t = ev[c][j]; ev[c][j] = ev[c][j - 1]; ev[c][j - 1] = t; }
    u64 wl = (u64)window * SEC, g = MS;   /* clock granularity */
    /* bound: greedy windows over admissions. A window certainly contains the
     * admissions that ended before its earliest possible end. */
    int i = 0;
    while (i < n && !ev[c][i].ok) i++;
    while (i < n) {
        u64 end = ev[c][i].a + wl;    /* earliest possible end of this window */
        int cnt = 0, j = i;
        for (; j < n; j++) if (ev[c][j].ok) { if (ev[c][j].b + g >= end) break; cnt++; }
        CHECK((u32)cnt <= max, "over-rate", "client %d: %d requests admitted within %.3f s of the first one of the window, the maximum is %u per %u s",
              c, cnt, (double)(ev[c][j - 1 < n ? j - 1 : n - 1].b - ev[c][i].a) / SEC, max, window);
        /* the next window starts at an admission at or after the earliest end; only
         * continue when that is unambiguous */
        int k = j;
        while (k < n && !ev[c][k].ok) k++;
        if (k >= n) break;
        if (ev[c][k].a < ev[c][i].b + wl + g) break;  /* ambiguous boundary */
        i = k;
    }
    /* refusals: at least max admissions must lie in the last window length */
    for (int r = 0; r < n; r++) if (!ev[c][r].ok && !ev[c][r].oom) {
        int cnt = 0;
        for (int j = 0; j < n; j++)
            if (ev[c][j].ok && ev[c][j].a <= ev[c][r].b && ev[c][j].b + wl > ev[c][r].a) cnt++;
        CHECK((u32)cnt >= max, "refused-within-rate", "client %d refused at %.3f s after only %d admissions in the %u s before (maximum %u)",
              c, (double)ev[c][r].a / SEC, cnt, window, max);
    }
    int seen_ref = 0;
    for (int r = 0; r < n; r++) { if (!ev[c][r].ok) seen_ref = 1; else if (seen_ref) admitted_again = 1; }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(20000 * SEC, 3000000);
    int faulty = sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_OOM) | F(DK_CLOCK));
    (void)faulty; sim_oom_scope(1);
    memset(nev, 0, sizeof nev); refused = admitted_again = 0;
    static const u32 wins[] = {1, 2, 3, 10, 60}, maxs[] = {1, 2, 3, 5, 10, 30};
    window = wins[C(5)]; max = maxs[C(6)];
    static const int clis[] = {1, 2, 3, 8, 20, 60};
    ncli = clis[C(6)];
    threads_n = (int)CR(1, 4);
    int lead = C(4) == 3 ? (int)CR(1, 200) : 0;             /* long names that differ at the end only */
    for (int i = 0; i < ncli; i++) {
        memset(ids[i], 'c', (size_t)lead);
        snprintf(ids[i] + lead, sizeof ids[i] - (size_t)lead, i % 3 == 0 ? "10.0.0.%d" : i % 3 == 1 ? "client-%d" : "%d", i);
    }
    static const size_t hints[] = {0, 1, 8, 9, 100};
    rl = mcp_rate_limiter_create(hints[C(5)], window, max);
    if (!rl) { sim_probe("creation failed"); return; }
    if (C(4) == 1) sim_sleep_ns((u64)CR(1, 999) * MS);
    int per = (int)CR(3, 60);
    int t[4];
    for (int i = 0; i < threads_n; i++) t[i] = sim_spawn(asker, (void *)(intptr_t)per);
    for (int i = 0; i < threads_n; i++) sim_join(t[i]);
    sim_faults_off();
    /* liveness: after a full window everybody is admitted again */
    if (C(2) == 0) {
        sim_sleep_ns((u64)window * SEC + 2 * MS);
        for (int c = 0; c < ncli; c++) ask(c);
        for (int c = 0; c < ncli; c++) CHECK(ev[c][nev[c] - 1].ok || nev[c] >= NADM, "not-admitted-again", "client %d is refused although its window has passed", c);
    }
    for (int c = 0; c < ncli; c++) judge(c);
    mcp_rate_limiter_destroy(rl);
    if (refused) sim_probe("refused");
    if (admitted_again) sim_probe("admitted after refusal");
    if (refused && (threads_n > 1 || ncli > 1)) sim_mark_nontrivial();
}
HARNESS(rate, "P10", "basic-limiter", run,
        "mcp_rate_limiter.c, mcp_sync.c, mcp_sys_utils.c",
        "threads, clocks, heap",
        "a run counts when a request was refused and several threads or clients were involved; distinct by hash of the sequence of synchronisation operations and thread switches", 1)
