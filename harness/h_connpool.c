/* P13: the connection pool. */
#include "sim.h"
#include "mcp_connection_pool.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#define PORT 7300
#define NT 6
#define NCONN 512
static mcp_connection_pool_t *pool;
static struct sc { int h, kill, dead, id; u64 dead_at; } S[NCONN];
static int nsc, want_up, over;
static int holder[4096];                 /* fd -> 1 + thread, 0 free */
static u32 maxc;
static int lent, in_get, nt, quit, destroying, destroyed, hard, health, patient;
static u64 busy_at, down_at, ngets;      /* last instant without spare capacity; last instant the server was not there */
static int giving, pending[NT];                  /* thread is inside get */
static u64 maxlat, cut_at;             /* end of the last partition */

static void server_conn(void *a) {
    struct sc *c = a;
    char b[64];
    while (!over && !c->kill) {
        long n = hnet_recv(c->h, b, sizeof b, 50 * MS);
        if (n == -2) continue;
        if (n <= 0) break;
        if (hnet_send_for(c->h, b, (size_t)n, SEC) != n) break;
    }
    c->dead = 1;
    c->dead_at = sim_now();
    if (c->kill == 2) hnet_reset(c->h); else hnet_close(c->h);
}
static void acceptor(void *a) {
    (void)a;
    int tid[NCONN], l = -1;
    while (!over) {
        if (want_up && l < 0) l = hnet_listen(PORT);
        if (!want_up && l >= 0) { hnet_close(l); l = -1; }
        if (l < 0) { down_at = sim_now(); sim_sleep_ns(5 * MS); continue; }
        int h = hnet_accept(l, 20 * MS);
        if (h < 0) continue;
        if (nsc >= NCONN) { hnet_close(h); continue; }
        struct sc *c = &S[nsc++];
        *c = (struct sc){.h = h, .id = hnet_conn_id(h)};
        tid[nsc - 1] = sim_spawn(server_conn, c);
    }
    for (int i = 0; i < nsc; i++) sim_join(tid[i]);
    if (l >= 0) hnet_close(l);
}
static struct sc *server_side(int fd) {
    int id = net_fd_conn_id(fd);
    for (int i = nsc - 1; i >= 0; i--) if (S[i].id == id) return &S[i];
    return 0;
}
static void count(void) {
    if ((u32)(lent + in_get) > maxc) busy_at = sim_now();
    if (pool && !destroyed) CHECK((u32)net_open_sockets() <= maxc, "over-maximum", "%d connections are open, the maximum is %u", net_open_sockets(), maxc);
}
/* talks over a lent connection; 1 if it works */
static int talk(int fd, int t) {
    char m[32], b[64];
    int n = snprintf(m, sizeof m, "t%d.%llu", t, (unsigned long long)ngets), got = 0;
    if (send(fd, m, (size_t)n, MSG_NOSIGNAL) != n) return 0;
    while (got < n) {
        struct pollfd p = {.fd = fd, .events = POLLIN};
        int r = poll(&p, 1, 3000);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return 0;
        long k = recv(fd, b + got, (size_t)(n - got), 0);
        if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue;
        if (k <= 0) return 0;
        got += (int)k;
    }
    CHECK(!memcmp(m, b, (size_t)n), "shared", "thread %d got an answer meant for another user of its connection", t);
    return 1;
}
static int get(int t, int tmo) {
    in_get++; pending[t] = 1;
    count();
    u64 t0 = sim_now(), oom = sim_alloc_failed();
    int down0 = !want_up;
    sim_log("get by %d time-out %d", t, tmo);
    int fd = mcp_connection_pool_get(pool, tmo);
    u64 t1 = sim_now(), d = t1 - t0;
    sim_log("get by %d -> %d", t, fd);
    if (in_get + lent > (int)maxc) busy_at = t1;
    in_get--; pending[t] = 0;
    if (tmo > 0) CHECK(d <= (u64)tmo * MS + (sim_get_rate(DK_DNS) ? 350 : 50) * MS + sim_injected_since(t0), "late", "a request for a connection with time-out %d ms took %.0f ms", tmo, (double)d / 1e6);
    if (fd < 0) {
        if (tmo > 0 && !destroying) {
            CHECK(d + MS >= (u64)tmo * MS, "early", "a request for a connection with time-out %d ms failed after %.1f ms", tmo, (double)d / 1e6);
            u64 s = t0;
            if (busy_at > s) s = busy_at;
            if (down_at > s) s = down_at;
            if (!hard && !down0 && want_up && cut_at < NEVER / 2 && sim_alloc_failed() == oom)
                CHECK(t1 - s <= maxlat + 200 * MS + sim_injected_since(s), "not-served", "a request failed although a connection was free or could be opened for the last %.0f ms", (double)(t1 - s) / 1e6);
            sim_probe("timed out");
        }
        CHECK(tmo >= 0 || destroying, "early", "a request without time-out failed");
        if (destroying) sim_probe("failed by destroy");
        return -1;
    }
    CHECK(!destroyed, "lent-after-destroy", "a connection was lent after the pool was destroyed");
    CHECK(net_fd_open(fd), "closed", "thread %d was lent a closed connection (%d)", t, fd);
    CHECK(!holder[fd], "lent-twice", "connection %d was lent to thread %d while thread %d has it", fd, t, holder[fd] - 1);
    CHECK(net_fd_conn_id(fd) >= 0, "unconnected", "thread %d was lent a socket that is not connected", t);
    struct sc *c = server_side(fd);
    if (health && c && c->dead)
        CHECK(t0 < (c->dead_at > cut_at ? c->dead_at : cut_at) + maxlat + SEC + sim_injected_since(c->dead_at), "broken-lent", "a connection the server closed %.1f s before was lent though connections are checked", (double)(t0 - c->dead_at) / 1e9);
    holder[fd] = t + 1;
    lent++; ngets++;
    if (tmo != 0 && d > 5 * MS) sim_probe("waited");
    count();
    return fd;
}
static void give(int fd, int ok) {
    count();
    holder[fd] = 0;
    giving++;
    int r = mcp_connection_pool_release(pool, fd, ok);
    CHECK(!r, "release-failed", "a lent connection could not be returned");
    lent--; giving--;
    count();
}
static void user(void *a) {
    int t = (int)(long)a;
    static const int tm[] = {0, 1, 20, 200, 1000, 3000, -1};
    for (int i = 0, n = patient ? 3 : (int)WR(3, 25); i < n && !quit; i++) {
        if (destroying) break;
        int fd = get(t, patient ? -1 : tm[W(7)]);
        if (fd >= 0) {
            int ok = 1;
            for (int k = (int)W(3); k > 0 && ok; k--) {
                ok = talk(fd, t);
                if (W(3) == 1) sim_sleep_ns(WR(1, 400) * MS);
                if (ok) CHECK(holder[fd] == t + 1 && net_fd_open(fd), "closed", "the connection lent to thread %d was closed under it", t);
            }
            if (W(8) == 1) ok = 0;
            if (W(5) == 1) sim_sleep_ns(WR(1, 2500) * MS);
            /* several return theirs at the same moment */
            if (patient && W(2)) sim_sleep_ns(200 * MS - sim_now() % (200 * MS));
            if (!ok) sim_probe("returned broken");
            if (destroying) { holder[fd] = 0; close(fd); lent--; break; }
            give(fd, ok);
        }
        if (!patient && W(3) == 1) sim_sleep_ns(W(6) == 1 ? WR(500, 6000) * MS : WR(1, 300) * MS);
    }
}
static void trouble(void *a) {
    (void)a;
    while (!quit) {
        sim_sleep_ns(WR(20, 2500) * MS);
        if (quit) break;
        u32 w = W(6);
        if (w <= 2 && nsc) {
            for (int i = 0; i < nsc; i++) if (!S[i].dead && W(2)) { S[i].kill = 1 + (int)W(2); sim_count_fault(DK_PEER); }
        } else if (w == 3) {
            want_up = 0; sim_count_fault(DK_PEER);
            sim_sleep_ns(WR(50, 3000) * MS);
            want_up = 1;
        } else if (w == 4) {
            net_partition(1); cut_at = NEVER / 2; sim_count_fault(DK_PARTITION);
            sim_sleep_ns(WR(10, 1500) * MS);
            net_partition(0);
            down_at = cut_at = sim_now();
        }
    }
}
static int user_tid[NT];
static int p_waiting(void *a) { (void)a; for (int i = 0; i < nt; i++) if (pending[i]) return 1; return 0; }
/* every call in progress has got as far as waiting for something */
static int p_inside(void *a) { (void)a; if (giving) return 0; for (int i = 0; i < nt; i++) if (pending[i] && !sim_waiting(user_tid[i])) return 0; return 1; }
static int final_fd[NT + 8];
static void last_user(void *a) { int i = (int)(long)a; final_fd[i] = get(i, 8000); }
static void destroyer(void *a) { (void)a; mcp_connection_pool_destroy(pool); }

static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    memset(S, 0, sizeof S); memset(holder, 0, sizeof holder); memset(pending, 0, sizeof pending);
    nsc = over = giving = lent = in_get = quit = destroying = destroyed = 0;
    busy_at = down_at = ngets = cut_at = 0; pool = 0;
    want_up = 1;
    sim_limit(3000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SPURIOUS) | F(DK_SOCKET) | F(DK_DNS) | F(DK_OOM));
    maxlat = 50 * MS;
    u32 cfg_net = C(3);
    if (cfg_net == 2) { net_config(MS, 80 * MS, 100000); maxlat = 300 * MS; }
    hard = sim_get_rate(DK_REFUSE) || sim_get_rate(DK_CONN_TIMEOUT) || sim_get_rate(DK_SOCKET) || sim_get_rate(DK_DNS) || sim_get_rate(DK_RESET) || sim_get_rate(DK_DELAY) || sim_get_rate(DK_OOM);
    if (sim_get_rate(DK_DELAY)) maxlat += 2 * SEC;
    int acc = sim_spawn(acceptor, 0), tid[NT + 8];
    sim_sleep_ns(20 * MS);
    if (C(6) == 1) want_up = 0, sim_sleep_ns(50 * MS);
    maxc = CR(1, 4);
    u32 minc = C(2) ? 0 : C(maxc + 1);
    static const int idle[] = {0, 0, 1500, 5000}, hci[] = {0, 0, 1000, 3000}, ct[] = {100, 1000, 3000};
    int hc = hci[C(4)], idl = idle[C(4)], cto = ct[C(3)];
    health = hc > 0;
    patient = C(5) == 1;
    pool = mcp_connection_pool_create("server.example", PORT, minc, maxc, idl, cto, hc, C(2) ? 0 : 200);
    if (!pool) { CHECK(sim_get_rate(DK_OOM), "not-created", "the pool could not be created"); over = 1; sim_join(acc); sim_probe("creation failed"); return; }
    want_up = 1;
    sim_oom_scope(1);
    nt = (int)CR(1, NT);
    for (int i = 0; i < nt; i++) user_tid[i] = tid[i] = sim_spawn(user, (void *)(long)i);
    int tr = C(3) ? sim_spawn(trouble, 0) : -1;
    int early = C(4) == 1;
    if (early) {
        /* destroyed while calls are waiting */
        sim_sleep_ns(CR(1, 4000) * MS);
        quit = 1;
        want_up = 1;
        if (tr >= 0) sim_join(tr);
        /* nobody may use the pool from now on except calls that already wait */
        destroying = 1;
        sim_wait_until(p_inside, 0, 3000 * SEC);
        if (p_waiting(0)) sim_probe("destroyed with calls waiting");
    } else {
        for (int i = 0; i < nt; i++) CHECK(sim_join_for(tid[i], 1000 * SEC + sim_injected()), "stuck", "a user of the pool never came back");
        quit = 1;
        if (tr >= 0) sim_join(tr);
        sim_faults_off();
        sim_oom_scope(0);
        want_up = 1;
        sim_sleep_ns(5 * SEC);
        hard = 0; maxlat = 300 * MS;
        /* connections that broke may still be lent when they are not checked: weed them out */
        if (!health) for (int k = 0; k < 8; k++) {
            int fds[8], n = 0;
            for (u32 i = 0; i < maxc; i++) { int fd = get(0, 3000); if (fd >= 0) fds[n++] = fd; }
            int bad = 0;
            for (int i = 0; i < n; i++) { int ok = talk(fds[i], 0); bad += !ok; give(fds[i], ok); }
            if (!bad) break;
        }
        /* the whole capacity is still there */
        for (u32 i = 0; i < maxc; i++) tid[i] = sim_spawn(last_user, (void *)(long)i);
        for (u32 i = 0; i < maxc; i++) CHECK(sim_join_for(tid[i], 100 * SEC), "stuck", "a request for a connection with time-out never came back");
        for (u32 i = 0; i < maxc; i++) CHECK(final_fd[i] >= 0, "capacity-lost", "only %d of %u connections can be lent after all were returned", lent, maxc);
        for (u32 i = 0; i < maxc; i++) CHECK(talk(final_fd[i], (int)i), "broken-lent", "a connection lent at the end does not work");
        size_t tot = 0, idlec = 0, act = 0;
        mcp_connection_pool_get_stats(pool, &tot, &idlec, &act, 0, 0);
        CHECK(tot == maxc && act == maxc && !idlec, "counts", "%u connections are lent, the pool reports %zu in total, %zu idle, %zu active", maxc, tot, idlec, act);
        CHECK(mcp_connection_pool_get(pool, 0) < 0, "over-maximum", "one more than the maximum was lent");
        for (u32 i = 0; i < maxc; i++) give(final_fd[i], 1);
        destroying = 1;
    }
    u64 t0 = sim_now();
    int d = sim_spawn(destroyer, 0);
    CHECK(sim_join_for(d, 30 * SEC + (u64)cto * MS + sim_injected_since(t0)), "destroy-hangs", "destroying the pool did not end");
    destroyed = 1;
    if (early) for (int i = 0; i < nt; i++) CHECK(sim_join_for(tid[i], 30 * SEC + 4 * sim_injected_since(t0)), "stuck", "a call waiting for a connection was not woken by destroy");
    CHECK(!net_open_sockets(), "left-open", "%d connections are open after the pool was destroyed", net_open_sockets());
    over = 1;
    sim_join(acc);
    sim_state((u64)nsc << 8 | maxc);
    if (nt >= 2 && ngets >= 4) sim_mark_nontrivial();
}
HARNESS(p13, "P13", "connection-pool", run, "connection pool with maintenance thread, health checks and DNS cache, socket utilities, mutex and condition wrappers", "kernel threads, clocks, sockets and name resolution, server program, heap allocator",
        "at least two users and four connections lent", 1)
MEMORY_HARNESS(p13_mem, "memory-connection-pool", run,
        "connection pool with maintenance thread, health checks and DNS cache, socket utilities, mutex and condition wrappers",
        "kernel threads, clocks, sockets and name resolution, server program, heap allocator", 1)
