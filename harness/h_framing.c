/* P04: framed messages over a stream connection. */
#include "sim.h"
#include "mcp_framing.h"
#include "mcp_socket_utils.h"
#include "mcp_memory_pool.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <arpa/inet.h>
#include <sys/socket.h>

#define NM 1600
typedef struct {
    int id;
    int sfd, rfd;            /* descriptors of the code under test, or -1 */
    int sh, rh;              /* handles of a harness peer, or -1          */
    u32 len[NM];
    int nmsg;                /* messages begun to be sent                 */
    int sent;                /* messages whose send call succeeded        */
    int cut;                 /* the sender broke off or sends no more     */
    int got;                 /* messages delivered                        */
    int nsend, live, locked, budget;
    u32 max;
    int broken_at;           /* index of a deliberately bad frame or NM   */
    volatile bool sstop, rstop;
    int use_sstop, use_rstop;
    u64 sstop_at, rstop_at;
    int silent, tmo, reset, room, failed_alloc, quit, early;
    int tid[8], nt;
} conn_t;
static conn_t K[3];
static int nk;
static int lossy, big, small, nonblock;            /* connections may be reset by the network   */

/* the body of a frame that must be refused looks like a row of small frames */
static u8 byte_of(conn_t *c, int m, u32 i) { if (m == c->broken_at) return i % 5 == 3; return (u8)((u32)m * 131 + (u32)c->id * 17 + i * 7 + (i >> 8) * 3 + 1); }
static void fill(conn_t *c, int m, char *p) { for (u32 i = 0; i < c->len[m]; i++) p[i] = (char)byte_of(c, m, i); }
static u32 pick_len(conn_t *c) {
    switch (W(8)) {
    case 0: return WR(1, 8);
    case 1: return 0;
    case 2: return WR(9, 300);
    case 3: return WR(300, 5000);
    case 4: return c->room ? (W(6) ? WR(5000, 60000) : WR(65530, 150000)) : WR(1, 2000);
    case 5: return small && c->max > 4096 ? 4000 : c->max - W(2);
    default: return WR(1, 64);
    }
}
static int unlocked(void *a) { return !((conn_t *)a)->locked; }
static int new_msg(conn_t *c) {
    if (c->nmsg >= NM) return -1;
    u32 l = big ? W(40) : pick_len(c);
    if (l > c->max) l = c->max;
    if (c->broken_at == c->nmsg) l = c->max + 1 + W(3) * 100;    /* one too long for the receiver */
    c->len[c->nmsg] = l;
    return c->nmsg++;
}
static void after_send(conn_t *c, u64 a, int r, int n) {
    u64 now = sim_now();
    if (c->use_sstop && c->sstop) {
        u64 from = a > c->sstop_at ? a : c->sstop_at;
        CHECK(now - from < SEC + sim_injected_since(from), "stop-slow", "a send ended %.1f s after it was told to stop", (double)(now - from) / SEC);
    }
    if (r == 0) c->sent += n;
    else {
        c->cut = 1;
        if (!lossy && !c->reset && !c->sstop && !c->quit && !sim_alloc_failed())
            sim_fail("send-failed", "a send failed although the connection is intact and nothing was stopped");
    }
}
static void sender(void *arg) {
    conn_t *c = arg;
    volatile bool *st = c->use_sstop ? &c->sstop : 0;
    while (c->budget > 0 && !c->cut) {
        sim_wait_until(unlocked, c, NEVER);
        if (c->locked) continue;
        c->locked = 1;
        if (c->cut || c->budget <= 0) { c->locked = 0; break; }
        c->budget--;
        int op = (int)W(5), n = 1, first = c->nmsg;
        if (op == 1) n = W(20) == 1 ? (int)WR(500, 700) : (int)WR(1, 6);
        if (first + n > NM) n = 0;
        big = n > 6;
        for (int i = 0; i < n; i++) new_msg(c);
        big = 0;
        if (!n) { c->locked = 0; break; }
        u64 a = sim_now();
        int r;
        if (op == 1) {
            const char **ms = malloc(sizeof *ms * (size_t)n);
            u32 *ls = malloc(sizeof *ls * (size_t)n);
            for (int i = 0; i < n; i++) { ls[i] = c->len[first + i]; char *b = malloc(ls[i] + 1); fill(c, first + i, b); ms[i] = b; }
            r = mcp_framing_send_batch(c->sfd, ms, ls, (size_t)n, st);
            after_send(c, a, r, n);
            for (int i = 0; i < n; i++) free((void *)ms[i]);
            free(ms); free(ls);
            sim_probe("batch sent");
        } else {
            u32 l = c->len[first];
            char *b = malloc(l + 5);
            u32 nl = htonl(l);
            memcpy(b, &nl, 4);
            fill(c, first, b + 4);
            if (op == 2) r = mcp_socket_send_exact(c->sfd, b, l + 4, st);
            else if (op == 3) {
                mcp_socket_buffer_t bb[4];
                const mcp_socket_buffer_t *pp[5];
                int k = 0;
                u32 o = 0;
                memset(bb, 0, sizeof bb);
                while (k < 4) {
                    u32 part = k == 3 ? l + 4 - o : W(l + 5 - o);
                    bb[k].buffer = b + o; bb[k].size = l + 4; bb[k].used = part;
                    pp[k] = &bb[k];
                    o += part; k++;
                }
                r = mcp_socket_send_batch(c->sfd, pp, k, st);
            } else r = mcp_framing_send_message(c->sfd, l || W(2) ? b + 4 : 0, l, st);
            after_send(c, a, r, 1);
            free(b);
        }
        c->locked = 0;
        if (W(3) == 1) sim_sleep_ns(WR(0, 40) * MS);
    }
    if (--c->live == 0) { c->cut = 1; if (c->sfd >= 0) { if (W(2)) shutdown(c->sfd, SHUT_WR); else { mcp_socket_close(c->sfd); c->sfd = -1; } } }
}
/* a peer that cuts the stream arbitrarily and may misbehave */
static void peer_sender(void *arg) {
    conn_t *c = arg;
    while (c->budget-- > 0) {
        int bad = c->broken_at == c->nmsg;
        int m = new_msg(c);
        if (m < 0) break;
        u32 l = c->len[m], n = l + 4;
        u8 *b = malloc(n);
        u32 nl = htonl(bad && W(3) == 1 ? 0xffffffffu - W(2) : l);
        memcpy(b, &nl, 4);
        fill(c, m, (char *)b + 4);
        int trunc = !bad && sim_fault(DK_PEER);
        u32 stop_at = trunc ? W(n) : n;
        for (u32 o = 0; o < stop_at;) {
            u32 k = W(4) ? stop_at - o : 1 + W(stop_at - o);
            if (hnet_send(c->sh, b + o, k) < 0) { free(b); goto out; }
            o += k;
            if (W(4) == 1) sim_sleep_ns(WR(1, 300) * MS);
        }
        free(b);
        if (trunc) { sim_count_fault(DK_PEER); sim_probe("frame truncated"); break; }
        c->sent++;
        if (bad) sim_probe("oversized frame sent");
        if (W(3) == 1) sim_sleep_ns(WR(0, 40) * MS);
    }
out:
    c->cut = 1;
    if (c->reset) { hnet_reset(c->sh); c->sh = -1; }
    else if (!c->silent) { hnet_close(c->sh); c->sh = -1; }
    c->live = 0;
}
static void deliver(conn_t *c, const char *d, u32 l) {
    int m = c->got++;
    CHECK(m < c->nmsg, "invented", "message %d of %u bytes was delivered, only %d were sent", m, l, c->nmsg);
    CHECK(m != c->broken_at, "oversized-delivered", "message %d exceeds the limit of %u bytes and was delivered", m, c->max);
    CHECK(l == c->len[m], "wrong-length", "message %d has %u bytes, %u were sent", m, l, c->len[m]);
    CHECK(!l || d, "no-data", "message %d of %u bytes has no data", m, l);
    for (u32 i = 0; i < l; i++) if ((u8)d[i] != byte_of(c, m, i)) sim_fail("wrong-data", "byte %u of message %d differs from what was sent", i, m);
    sim_checks++;
}
static void receiver(void *arg) {
    conn_t *c = arg;
    volatile bool *st = c->use_rstop ? &c->rstop : 0;
    int style = (int)W(c->silent ? 3 : 4);
    u64 before = sim_alloc_failed();
    if (c->tmo) mcp_socket_set_timeout(c->rfd, (u32)c->tmo);
    for (;;) {
        u64 a = sim_now();
        int r, had = c->got, all = c->live == 0;
        if (style == 3) {
            static const int tos[] = {0, 1, 30, 250, 700, 2500, -1};
            int to = tos[W(7)];
            r = mcp_socket_wait_readable(c->rfd, to, st);
            u64 took = sim_now() - a;
            if (to >= 0) CHECK(took < (u64)to * MS + SEC / 2 + sim_injected_since(a), "wait-long", "a wait of %d ms took %.3f s", to, (double)took / SEC);
            if (r == 0) {
                CHECK(to >= 0 && took + 2 * MS >= (u64)to * MS, "wait-short", "a wait of %d ms timed out after %.3f s", to, (double)took / SEC);
                if (W(4) == 1) sim_sleep_ns(10 * MS);
                continue;
            }
            if (r < 0) { if (!lossy && !c->reset && !c->rstop && sim_alloc_failed() == before) sim_fail("wait-failed", "waiting for data failed on an intact connection"); break; }
            CHECK(r == 1, "wait-result", "waiting returned %d", r);
            char pk;
            sim_nofault_begin();
            CHECK(recv(c->rfd, &pk, 1, MSG_PEEK | MSG_DONTWAIT) >= 0 || errno != EAGAIN, "not-readable", "a wait reported data, there is none");
            sim_nofault_end();
        }
        a = sim_now();
        if (style == 2) {
            char *ms[8] = {0};
            u32 ls[8];
            size_t n = 0, mx = WR(1, 8);
            r = mcp_framing_recv_batch(c->rfd, ms, ls, mx, &n, c->max, st);
            CHECK(n <= mx, "batch-overrun", "%zu messages delivered, at most %zu asked for", n, mx);
            for (size_t i = 0; i < n; i++) { deliver(c, ms[i], ls[i]); free(ms[i]); }
            if (n > 1) sim_probe("batch received");
            if (r && n) sim_probe("batch ended by an error");
        } else {
            char *d = 0;
            u32 l = 0;
            r = mcp_framing_recv_message(c->rfd, &d, &l, c->max, st);
            if (r) CHECK(!d, "data-with-error", "an error was returned together with data");
            else { deliver(c, d, l); free(d); }
        }
        u64 now = sim_now();
        if (st && *st) {
            u64 from = a > c->rstop_at ? a : c->rstop_at;
            CHECK(now - from < SEC + sim_injected_since(from), "stop-slow", "a receive ended %.1f s after it was told to stop", (double)(now - from) / SEC);
        }
        if (c->tmo && all && had == c->got) {
            CHECK(now - a < (u64)c->tmo * MS * 2 + 100 * SEC + sim_injected_since(a), "timeout-ignored", "a receive with a time-out of %d ms took %.3f s", c->tmo, (double)(now - a) / SEC);
            sim_probe("receive timed out");
        }
        if (r) break;
        if (W(6) == 1) sim_sleep_ns(WR(1, 200) * MS);
        if (st && *st) break;
    }
    c->failed_alloc = sim_alloc_failed() != before;
    c->quit = 1;
    mcp_socket_close(c->rfd);
    c->rfd = -1;
}
static void peer_receiver(void *arg) {
    conn_t *c = arg;
    static u8 buf[3][70000];
    u8 *b = buf[c->id];
    u8 hd[4];
    u32 hn = 0, o = 0, l = 0;
    int early = W(5) == 1 ? (int)WR(1, 40) : 0;
    for (;;) {
        long n = hnet_recv(c->rh, b, W(3) ? 70000 : WR(1, 100), 3000 * SEC);
        if (n <= 0) break;
        for (long i = 0; i < n; i++) {
            if (hn < 4) {
                hd[hn++] = b[i];
                if (hn == 4) { u32 v; memcpy(&v, hd, 4); l = ntohl(v); o = 0;
                    CHECK(c->got < c->nmsg, "invented", "a frame was sent that nobody asked for");
                    CHECK(l == c->len[c->got], "wrong-length", "frame %d says %u bytes, %u were to be sent", c->got, l, c->len[c->got]);
                    if (!l) { c->got++; hn = 0; } }
            } else {
                CHECK(b[i] == byte_of(c, c->got, o), "wrong-data", "byte %u of message %d differs on the wire", o, c->got);
                if (++o == l) { c->got++; hn = 0; }
            }
        }
        if (W(8) == 1) sim_sleep_ns(WR(1, 400) * MS);
        if (early && --early == 0) { sim_probe("peer stopped reading"); c->early = 1; break; }
    }
    c->quit = 1;
    if (c->reset) hnet_reset(c->rh); else hnet_close(c->rh);
    c->rh = -1;
}
static void stopper(void *arg) {
    conn_t *c = arg;
    sim_sleep_ns(WR(0, 3000) * MS);
    if (c->use_sstop && W(2)) { c->sstop_at = sim_now(); c->sstop = true; sim_probe("sender stopped"); }
    if (W(3) == 1) sim_sleep_ns(WR(0, 500) * MS);
    if (c->use_rstop) { c->rstop_at = sim_now(); c->rstop = true; sim_probe("receiver stopped"); }
}
static int code_connect(int port) {
    for (int i = 0; i < 4; i++) {
        int to = (int)WR(50, 3000), before = net_open_sockets();
        u64 a = sim_now(), oom = sim_alloc_failed();
        nonblock = (int)W(2);
        int fd = !nonblock ? mcp_socket_connect("host", (u16)port, (u32)to) : mcp_socket_connect_nonblocking("host", (u16)port, (u32)to);
        u64 took = sim_now() - a;
        CHECK(took < (u64)to * MS + SEC + sim_injected_since(a), "connect-slow", "connecting with a time-out of %d ms took %.3f s", to, (double)took / SEC);
        if (fd >= 0) {
            CHECK(lossy || net_fd_alive(fd), "not-connected", "connect returned a socket that is not connected");
            return fd;
        }
        CHECK(net_open_sockets() <= before, "socket-leak", "a failed connect left a socket open");
        sim_probe("connect failed");
        (void)oom;
    }
    return -1;
}
static void setup(conn_t *c, int i) {
    memset(c, 0, sizeof *c);
    c->id = i; c->sfd = c->rfd = c->sh = c->rh = -1;
    static const u32 maxs[] = {1, 60, 4096, 65536, 200};
    c->max = maxs[C(5)];
    c->room = C(3) == 1 && !small;
    c->budget = (int)CR(1, 14);
    if (small && c->max > 4096) c->max = 4096;
    c->broken_at = C(4) == 1 ? (int)C(12) : NM;
    c->use_rstop = C(3) == 1; c->use_sstop = C(3) == 1;
    int mode = (int)C(3), port = 7000 + i, swap = (int)C(2);
    c->reset = mode && C(6) == 1;
    if (mode == 0) {
        int l = mcp_socket_create_listener("0.0.0.0", (u16)port, 8);
        if (l < 0) return;
        int cl = code_connect(port), sv = -1;
        if (cl >= 0) for (int k = 0; k < 20 && sv < 0; k++) {
            if (mcp_socket_wait_readable(l, 500, 0) == 1) sv = mcp_socket_accept(l, 0, 0);
            if (sv >= 0 && !net_fd_alive(sv)) { /* left over from an attempt that timed out */ mcp_socket_close(sv); sv = -1; }
            if (sv >= 0 && net_fd_conn_id(sv) != net_fd_conn_id(cl)) { mcp_socket_close(sv); sv = -1; }
        }
        mcp_socket_close(l);
        if (cl < 0 || sv < 0) { if (cl >= 0) mcp_socket_close(cl); if (sv >= 0) mcp_socket_close(sv); return; }
        c->sfd = swap ? sv : cl; c->rfd = swap ? cl : sv;
    } else {
        int h = hnet_listen(port);
        int cl = code_connect(port);
        if (cl < 0) { hnet_close(h); return; }
        int sv = -1;
        for (int k = 0; k < 8 && sv < 0; k++) {
            sv = hnet_accept(h, 5 * SEC);
            if (sv >= 0 && hnet_conn_id(sv) != net_fd_conn_id(cl)) { hnet_close(sv); sv = -1; }
        }
        hnet_close(h);
        if (sv < 0) { mcp_socket_close(cl); return; }
        if (mode == 1) { c->sh = sv; c->rfd = cl; } else { c->sfd = cl; c->rh = sv; c->broken_at = NM; }
    }
    if (C(4) == 1 && c->rfd >= 0) { mcp_socket_set_non_blocking(c->rfd); }
    else if (mode == 1 && !nonblock && C(3) == 1 && !c->use_rstop) { c->silent = 1; c->reset = 0; c->tmo = (int)CR(400, 2000); }
    if (C(4) == 1 && c->sfd >= 0) mcp_socket_set_non_blocking(c->sfd);
    c->nsend = c->live = mode == 1 ? 1 : (int)CR(1, 3);
    for (int k = 0; k < c->nsend; k++) c->tid[c->nt++] = sim_spawn(mode == 1 ? peer_sender : sender, c);
    c->tid[c->nt++] = sim_spawn(mode == 2 ? peer_receiver : receiver, c);
    if (c->use_rstop || c->use_sstop) c->tid[c->nt++] = sim_spawn(stopper, c);
    nk++;
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(20000 * SEC, 6000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) |
                  F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_DNS) | F(DK_PEER));
    nk = 0;
    if (C(2)) sim_set_rate(DK_RESET, 0);
    lossy = sim_get_rate(DK_RESET) != 0;
    static const u32 bufs[] = {65536, 4096, 300, 16};
    u32 sb = bufs[C(4)];
    small = sb < 4096;
    net_config(50000, (u64)CR(1, 20) * MS, sb);
    if (C(4) == 1) mcp_memory_pool_system_init(4, 2, 1);
    int n = (int)CR(1, 3), base = net_open_sockets();
    memset(K, 0, sizeof K);
    for (int i = 0; i < n; i++) setup(&K[i], i);
    int total = 0;
    for (int i = 0; i < n; i++) {
        conn_t *c = &K[i];
        for (int k = 0; k < c->nt; k++)
            if (!sim_join_for(c->tid[k], 4000 * SEC + sim_injected())) sim_fail("hang", "connection %d: %s still busy long after the end (%d of %d messages delivered)", i, k < c->nsend ? "sending" : "receiving", c->got, c->nmsg);
        if (!c->nt) continue;
        if (c->sfd >= 0) mcp_socket_close(c->sfd);
        if (c->sh >= 0) hnet_close(c->sh);
        CHECK(c->got <= c->nmsg, "invented", "more messages than sent");
        int expect = c->sent < c->broken_at ? c->sent : c->broken_at;
        if (!lossy && !c->reset && !c->rstop && !c->failed_alloc && !c->tmo && !c->early)
            CHECK(c->got >= expect, "lost", "%d of %d messages were delivered over an intact connection", c->got, expect);
        total += c->got;
        sim_state((u64)c->got << 16 | (u64)(c->nmsg & 0xff) << 8 | (u64)c->cut << 2 | (u64)(c->broken_at < NM) << 1 | (u64)c->rstop);
    }
    CHECK(net_open_sockets() == base, "socket-leak", "%d sockets are left open", net_open_sockets() - base);
    if (total >= 3) sim_mark_nontrivial();
}
HARNESS(p04, "P04", "framing", run, "framing, socket utilities, memory pool", "sockets, name resolution, clocks; one end is a harness peer in two thirds of the connections",
        "at least three messages were delivered and compared byte for byte", 3)
