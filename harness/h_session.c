/* P15: HTTP session manager. */
#include "sim.h"
#include "mcp_http_session_manager.h"
#include "mcp_log.h"
#include <stdio.h>
#include <string.h>

#define NS 256
typedef struct {
    char id[MCP_SESSION_ID_MAX_LENGTH];
    mcp_http_session_t *p;
    u64 timeout;             /* ns, 0 never */
    u64 sure;                /* start of the latest use that certainly counted */
    u64 maybe;               /* end of the latest use that may have counted */
    u64 term_a, term_b;      /* first terminate call begun; terminate that returned true */
    int events, data, nodata;
} ses_t;
static ses_t S[NS];
static int ns, defto, ended, expired;
static mcp_http_session_manager_t *mgr;
static int destroyed, nearly;
static char early[32][MCP_SESSION_ID_MAX_LENGTH];

static void on_event(const char *id, mcp_session_state_t st, void *ud) {
    CHECK(ud == &S, "callback-argument", "the callback got another user pointer");
    CHECK(!destroyed, "late-callback", "an event was reported after the manager was destroyed");
    for (int i = 0; i < ns; i++) if (!strcmp(S[i].id, id)) {
        CHECK(st != MCP_SESSION_STATE_ACTIVE, "wrong-event", "an end of session was reported as active");
        S[i].events++;
        CHECK(S[i].events == 1, "end-reported-twice", "the end of session %d was reported %d times", i, S[i].events);
        ended++;
        if (st == MCP_SESSION_STATE_EXPIRED) {
            expired++;
            u64 now = sim_now();
            CHECK(S[i].timeout && now - S[i].sure + MS >= S[i].timeout, "expired-early", "session %d was expired %.3f s after its last use, its time-out is %.0f s",
                  i, (double)(now - S[i].sure) / SEC, (double)S[i].timeout / SEC);
        }
        return;
    }
    /* the creating call may not have returned yet */
    CHECK(nearly < 32, "unknown-event", "events for sessions that were never created");
    strcpy(early[nearly++], id);
}
static int must_live(ses_t *s, u64 until) { return s->term_a == NEVER && (!s->timeout || until - s->sure < s->timeout); }
static mcp_http_session_t *setting[8];     /* user data being set right now */
static int create(void) {
    char id[MCP_SESSION_ID_MAX_LENGTH] = "";
    static const int tos[] = {0, 1, 2, 10, -1};
    int to = tos[W(5)];
    u64 a = sim_now();
    /* the callback may see the session before this call returns */
    mcp_http_session_t *p = mcp_session_manager_create_session(mgr, id, to);
    if (!p) return -1;
    if (ns >= NS) sim_inconclusive("too many sessions");
    void *ud = mcp_session_get_user_data(p);
    int tt = to ? to : defto;
    if (tt <= 0 || sim_now() - a < (u64)tt * SEC) CHECK(!ud, "data-of-another-session", "a new session starts with user data");
    for (int i = 0; i < ns; i++) CHECK(strcmp(S[i].id, id), "duplicate-id", "two sessions got the id %s", id);
    CHECK(strlen(id) >= 16 && mcp_session_id_is_valid(id), "bad-id", "session id '%s'", id);
    int k = ns++;
    ses_t *s = &S[k];
    memset(s, 0, sizeof *s);
    strcpy(s->id, id);
    s->p = p; s->sure = a; s->maybe = sim_now();
    int t = to ? to : defto;
    s->timeout = t > 0 ? (u64)t * SEC : 0;
    s->term_a = s->term_b = NEVER;
    s->data = 1000 + k;
    for (int i = 0; i < nearly; i++) if (!strcmp(early[i], id)) { s->events++; ended++; early[i][0] = 0; }
    int slot = 0;
    while (slot < 7 && setting[slot]) slot++;
    setting[slot] = p;
    mcp_session_set_user_data(p, &s->data);
    /* when the session ended meanwhile its slot may belong to another one */
    if (!must_live(s, sim_now() + MS)) for (int i = 0; i < ns; i++) if (S[i].p == p) S[i].nodata = 1;
    setting[slot] = 0;
    return k;
}
static void get(int k, int use) {
    ses_t *s = &S[k];
    u64 a = sim_now(), maybe = s->maybe, term = s->term_b;
    mcp_http_session_t *p = mcp_session_manager_get_session(mgr, s->id);
    u64 b = sim_now();
    if (!p) {
        CHECK(!must_live(s, b), "live-session-not-found", "session %d is not found %.3f s after its last use, its time-out is %.0f s",
              k, (double)(b - s->sure) / SEC, (double)s->timeout / SEC);
        return;
    }
    CHECK(term == NEVER || a < term, "terminated-session-found", "session %d is found after it was terminated", k);
    if (s->maybe > maybe) maybe = s->maybe;
    CHECK(!s->timeout || a <= maybe + s->timeout + 2 * MS, "expired-session-found", "session %d is found %.3f s after its last use, its time-out is %.0f s",
          k, (double)(a - maybe) / SEC, (double)s->timeout / SEC);
    CHECK(p == s->p || !must_live(s, sim_now()), "wrong-session", "looking up session %d returned another session", k);
    if (must_live(s, sim_now())) {
        const char *id = mcp_session_get_id(p);
        int *d = mcp_session_get_user_data(p);
        if (must_live(s, sim_now() + MS)) {
            CHECK(id && !strcmp(id, s->id), "wrong-session", "session %d has the id of another session", k);
            int busy = 0;
            for (int i = 0; i < 8; i++) busy |= setting[i] == p;
            CHECK(d == &s->data || s->nodata || busy, "wrong-session", "session %d has the data of another session", k);
            mcp_session_state_t st = mcp_session_get_state(p);
            if (must_live(s, sim_now() + MS)) CHECK(st == MCP_SESSION_STATE_ACTIVE, "wrong-state", "session %d in use has state %d", k, (int)st);
        }
    }
    if (use) {
        /* the session may expire meanwhile, using it does not bring it back then */
        if (W(6) == 1) sim_sleep_ns((u64)WR(1, 3000) * MS);
        u64 ta = sim_now();
        mcp_session_touch(p);
        u64 tb = sim_now();
        for (int i = 0; i < ns; i++) if (S[i].p == p && tb > S[i].maybe && (!S[i].timeout || ta <= S[i].maybe + S[i].timeout + 2 * MS)) S[i].maybe = tb;
        if (must_live(s, tb + MS) && ta > s->sure) s->sure = ta;
    }
}
static void terminate(int k) {
    ses_t *s = &S[k];
    if (s->term_a == NEVER) s->term_a = sim_now(); 
    u64 t0 = s->term_b;
    int live = !s->timeout || sim_now() - s->sure < s->timeout, first = s->term_a == sim_now();
    int r = mcp_session_manager_terminate_session(mgr, s->id);
    u64 b = sim_now();
    if (r) {
        CHECK(s->term_b == NEVER && t0 == NEVER, "terminated-twice", "terminating session %d succeeded twice", k);
        s->term_b = b;
        CHECK(s->events == 1, "end-not-reported", "session %d was terminated and its end reported %d times", k, s->events);
    } else if (first && live && (!s->timeout || b - s->sure < s->timeout) && s->term_b == NEVER) {
        /* the only terminator of a live session must succeed, unless another call is under way */
        if (s->events == 0) sim_fail("terminate-failed", "terminating the live session %d failed", k);
    }
}
static void user(void *arg) {
    int n = (int)(intptr_t)arg, mine[16], m = 0;
    for (int i = 0; i < n; i++) {
        u32 w = W(12);
        if (w < 3 || !m) { int k = create(); if (k >= 0 && m < 16) mine[m++] = k; }
        else if (w < 8) get(mine[W((u32)m)], W(3) != 0);
        else if (w == 8) get((int)W((u32)ns), 0);
        else if (w == 9) terminate(W(3) ? mine[W((u32)m)] : (int)W((u32)ns));
        else if (w == 10) mcp_session_manager_cleanup_expired(mgr);
        u32 k = W(10);
        if (k == 1) sim_sleep_ns((u64)WR(1, 800) * MS);
        else if (k == 2) sim_sleep_ns(SEC - (u64)WR(0, 5) * MS);
        else if (k == 3) sim_sleep_ns(SEC + (u64)WR(0, 5) * MS);
        else if (k == 4) sim_sleep_ns((u64)WR(1, 11) * SEC);
    }
}
static int filled, fill_ended;
static void on_fill(const char *id, mcp_session_state_t st, void *ud) {
    for (int i = 0; i < ns; i++) if (!strcmp(S[i].id, id)) { on_event(id, st, ud); return; }
    fill_ended++;
}
static void fill(void) {
    /* creations beyond the maximum are refused, capacity comes back */
    char id[MCP_SESSION_ID_MAX_LENGTH], keep[MCP_SESSION_ID_MAX_LENGTH] = "";
    int n = 0;
    mcp_session_manager_set_event_callback(mgr, on_fill, &S);
    fill_ended = 0;
    while (n < 100000 && mcp_session_manager_create_session(mgr, id, n == 7 ? -1 : 2)) { if (n == 7) strcpy(keep, id); n++; }
    CHECK(n < 100000, "no-maximum", "100000 sessions were created");
    sim_probe("maximum reached");
    CHECK(mcp_session_manager_terminate_session(mgr, id), "terminate-failed", "terminating failed when full");
    CHECK(mcp_session_manager_create_session(mgr, id, 2), "capacity-lost", "no session can be created after one of the maximum was terminated");
    CHECK(!mcp_session_manager_create_session(mgr, id, 2), "over-maximum", "one more than the maximum was created");
    sim_sleep_ns(3 * SEC);
    if (C(2)) mcp_session_manager_cleanup_expired(mgr);
    CHECK(mcp_session_manager_create_session(mgr, id, 2), "capacity-lost", "no session can be created after all but one of the maximum expired");
    filled = n + 2;
    CHECK(mcp_session_manager_get_session(mgr, keep), "live-session-not-found", "a session without time-out is gone");
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(4000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_DISK_READ) | F(DK_DISK_META));
    ns = ended = expired = destroyed = nearly = 0;
    memset(setting, 0, sizeof setting);
    static const int dt[] = {3, 1, 60, 0};
    defto = dt[C(4)];
    mgr = mcp_session_manager_create((uint32_t)defto);
    if (!mgr) { sim_probe("creation failed"); return; }
    mcp_session_manager_set_event_callback(mgr, on_event, &S);
    int n = (int)CR(1, 4), t[4], cnt = (int)CR(4, 25), big = C(3000) == 2999;
    for (int i = 0; i < n; i++) t[i] = sim_spawn(user, (void *)(intptr_t)cnt);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    sim_faults_off();
    for (int k = 0; k < ns; k++) get(k, 0);
    sim_sleep_ns(61 * SEC);
    if (C(2)) mcp_session_manager_cleanup_expired(mgr);
    for (int k = 0; k < ns; k++) get(k, 0);
    size_t live = 0;
    for (int k = 0; k < ns; k++) if (must_live(&S[k], sim_now())) live++;
    mcp_session_manager_cleanup_expired(mgr);
    CHECK(mcp_session_manager_get_active_count(mgr) == live, "count-wrong", "%zu sessions are reported active, %zu are", mcp_session_manager_get_active_count(mgr), live);
    for (int k = 0; k < ns; k++) if (!must_live(&S[k], sim_now()))
        CHECK(S[k].events == 1, "end-not-reported", "session %d has ended, its end was reported %d times", k, S[k].events);
    if (big) fill();
    mcp_session_manager_destroy(mgr);
    destroyed = 1;
    if (big) CHECK(fill_ended == filled, "end-not-reported", "%d sessions were created and have ended, %d ends were reported", filled, fill_ended);
    for (int k = 0; k < ns; k++) CHECK(S[k].events == 1, "end-not-reported", "the manager was destroyed, the end of session %d was reported %d times", k, S[k].events);
    for (int i = 0; i < nearly; i++) CHECK(big || !early[i][0], "unknown-event", "an event for a session that was never created");
    if (expired) sim_probe("session expired");
    if (ended >= 2 && n >= 2) sim_mark_nontrivial();
    sim_state((u64)ended << 16 | (u64)expired << 8 | (u64)live);
}
HARNESS(p15, "P15", "sessions", run, "HTTP session manager, lock wrappers", "kernel threads, clocks, random device, heap allocator",
        "at least two sessions ended and two threads were active", 1)
MEMORY_HARNESS(p15_mem, "memory-sessions", run,
        "HTTP session manager, lock wrappers",
        "kernel threads, clocks, random device, heap allocator", 1)
