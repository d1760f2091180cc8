/* P07: TCP server transport. */
#include "sim.h"
#include "mcp_tcp_transport.h"
#include "mcp_transport.h"
#include "mcp_thread_cache.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <errno.h>

#define PORT 7000
#define NC 64
#define NQ 24
enum { REQ_NONE, REQ_SENDING, REQ_WHOLE, REQ_HANDLED };
static struct conn { int state[NQ], n, next, good, opened, closed; u32 len[NQ], rlen[NQ]; int nul[NQ]; u32 delay[NQ]; u64 began[NQ], fin; } Cn[NC];
static int nconn, stopping, stopped, in_cb, handled, answered, dropped_ok, idle_ms, may_drop, slow_cb;
static u64 stop_at, started;
static mcp_transport_t *tr;

static u8 rq(int c, int s, u32 i) { return alpha_byte('a', (u32)(c * 11 + s * 5 + (int)(i * 3 + (i >> 7)))); }
static u8 rs(int c, int s, u32 i) { return alpha_byte('A', (u32)(c * 7 + s * 3 + (int)(i * 5 + (i >> 8)))); }
static u32 fill(char *b, int c, int s, u32 l, int resp) {
    int h = snprintf(b, 40, "%c%d.%d:", resp ? 'R' : 'Q', c, s);
    if (l < (u32)h && !resp) l = (u32)h;
    for (u32 i = (u32)h; i < l; i++) b[i] = (char)(resp ? rs(c, s, i) : rq(c, s, i));
    return l;
}
static char *on_msg(void *ud, const void *d, size_t n, int *err) {
    CHECK(ud == (void *)&handled, "callback-argument", "the handler got another user pointer");
    CHECK(!stopped, "late-handler", "the handler ran after stop returned");
    *err = 0;
    if (!n) { sim_probe("empty frame handled"); return 0; }
    in_cb++;
    int c = -1, s = -1, used = 0;
    char hd[24] = "";
    memcpy(hd, d, n < 23 ? n : 23);
    CHECK(sscanf(hd, "Q%d.%d:%n", &c, &s, &used) == 2 && used && c >= 0 && c < NC, "invented-request", "the handler got data no client sent as a request (%zu bytes)", n);
    struct conn *k = &Cn[c];
    CHECK(s >= 0 && s < k->n, "invented-request", "the handler got request %d of connection %d which was not sent", s, c);
    CHECK(k->state[s] != REQ_HANDLED, "handled-twice", "request %d of connection %d was handled twice", s, c);
    CHECK(k->state[s] == REQ_WHOLE, "incomplete-request", "request %d of connection %d was handled before it was sent completely", s, c);
    CHECK(s == k->next, "out-of-order", "request %d of connection %d was handled, %d was due", s, c, k->next);
    CHECK(n == k->len[s] + (u32)k->nul[s], "wrong-length", "request %d of connection %d has %zu bytes, %u were sent", s, c, n, k->len[s]);
    for (u32 i = (u32)used; i < k->len[s]; i++) if (((const u8 *)d)[i] != rq(c, s, i)) sim_fail("wrong-data", "byte %u of request %d of connection %d differs", i, s, c);
    CHECK(((const u8 *)d)[k->len[s]] == 0, "wrong-data", "request %d of connection %d is not followed by a zero byte", s, c);
    k->state[s] = REQ_HANDLED;
    k->began[s] = sim_now();
    k->next++;
    handled++;
    if (k->delay[s]) sim_sleep_ns(k->delay[s] * MS);
    char *r = 0;
    if (k->rlen[s]) {
        r = malloc(k->rlen[s] + 40);
        u32 l = fill(r, c, s, k->rlen[s], 1);
        k->rlen[s] = l;
        r[l] = 0;
    } else *err = (int)W(2);
    in_cb--;
    k->fin = sim_now();
    return r;
}
static int crowded(void) { return net_open_sockets() >= 9; }
static int excused(u64 last_active) {
    if (!last_active) return 1;
    if (stopping || may_drop) return 1;
    if (sim_now() - started > 110 * SEC) return 1;      /* the pool may have shrunk by now */
    if (idle_ms && sim_now() - last_active + (sim_get_rate(DK_DELAY) ? 1000 : 300) * MS + sim_injected() >= (u64)idle_ms * MS) return 1;
    return 0;
}
/* as above while request s is open: no idle time passes while the handler works on it */
static int excused_req(u64 act, struct conn *k, int s) {
    if (!act || stopping || may_drop || sim_now() - started > 110 * SEC) return 1;
    u64 from = k->fin > act ? k->fin : act, to = k->began[s] ? k->began[s] : sim_now();
    if (k->began[s]) from = s && k->fin > act && k->fin < to ? k->fin : act;
    return idle_ms && (to > from ? to - from : 0) + (sim_get_rate(DK_DELAY) ? 1000 : 300) * MS + sim_injected() >= (u64)idle_ms * MS;
}
/* read one response; 1 ok, 0 connection gone */
static int read_resp(int h, int c, int s, u64 act) {
    struct conn *k = &Cn[c];
    static __thread char *b;
    u32 nl;
    u64 bound = 20 * SEC + 4 * sim_injected() + (u64)slow_cb * MS;
    u64 a = sim_now();
    u32 got = 0;
    int r, tries = 0;
    u8 p[4];
    while (got < 4) {
        if (++tries > 150) return 0;
        r = (int)hnet_recv(h, p + got, 4 - got, SEC);
        if (r == -2) { if (sim_now() - a > bound + 4 * sim_injected_since(a) && !stopping) sim_fail("no-response", "request %d of connection %d got no response for %.0f s", s, c, (double)(sim_now() - a) / SEC); if (stopped) return 0; continue; }
        if (r <= 0) {
            if (got) CHECK(excused_req(act, k, s), "torn-response", "the connection ended within a response");
            CHECK(excused_req(act, k, s), "dropped", "connection %d was closed by the server while request %d was open", c, s);
            return 0;
        }
        got += (u32)r;
    }
    memcpy(&nl, p, 4);
    u32 l = ntohl(nl);
    CHECK(k->state[s] == REQ_HANDLED, "invented-response", "connection %d got a response to request %d which was not handled", c, s);
    CHECK(l == k->rlen[s], "wrong-response", "connection %d: the response to request %d has %u bytes, the handler returned %u", c, s, l, k->rlen[s]);
    b = malloc(l + 40);
    got = 0;
    tries = 0;
    while (got < l) {
        if (tries > 150) { free(b); return 0; }
        r = (int)hnet_recv(h, b + got, l - got, SEC);
        if (r == -2) { tries++; if (sim_now() - a > 2 * bound + 4 * sim_injected_since(a) && !stopping) sim_fail("no-response", "the response to request %d of connection %d stays incomplete", s, c); if (stopped && sim_now() - stop_at > 60 * SEC) { free(b); return 0; } continue; }
        if (r <= 0) { CHECK(excused(act), "torn-response", "the connection ended within a response"); free(b); return 0; }
        got += (u32)r;
    }
    char *w = malloc(l + 40);
    fill(w, c, s, l, 1);
    CHECK(!memcmp(w, b, l), "wrong-response", "connection %d: the bytes of the response to request %d differ", c, s);
    free(w); free(b);
    answered++;
    return 1;
}
static void set_req(struct conn *k, int s, int bulk) {
    k->len[s] = bulk ? WR(2000, 60000) : W(200) == 1 ? 1024 * 1024 - 1 : WR(12, 200);
    k->rlen[s] = W(5) == 1 ? 0 : W(8) == 1 ? WR(2000, 50000) : W(8) == 1 ? WR(1, 3) : WR(12, 120);
    k->nul[s] = W(3) == 1;
    k->delay[s] = W(4) == 1 ? WR(1, (u32)slow_cb) : 0;
    char t[24];
    u32 h = (u32)snprintf(t, sizeof t, "Q%d.%d:", (int)(k - Cn), s);
    if (k->len[s] < h) k->len[s] = h;
    k->state[s] = REQ_SENDING;
}
/* sends one request; 0 if the connection is gone */
static int send_req(int h, int c, int s, int cut) {
    struct conn *k = &Cn[c];
    u32 l = k->len[s] + (u32)k->nul[s], o = 0;
    char *b = malloc(l + 44);
    u32 nl = htonl(l);
    memcpy(b, &nl, 4);
    fill(b + 4, c, s, k->len[s], 0);
    if (k->nul[s]) b[4 + k->len[s]] = 0;
    u32 upto = cut ? W(l + 4) : l + 4;
    int ok = 1;
    while (o < upto && ok) {
        u32 m = W(3) ? upto - o : 1 + W(upto - o);
        if (o + m == l + 4) k->state[s] = REQ_WHOLE;
        while (m) {
            int r = hnet_send_for(h, b + o, m, 5 * SEC);
            if (r < (int)m && (errno != EAGAIN || stopped)) { ok = 0; break; }
            o += (u32)r; m -= (u32)r;
        }
        if (W(5) == 1) sim_sleep_ns(WR(1, 40) * MS);
        else sim_yield();
    }
    free(b);
    return ok;
}
struct snd { int h, c, s, e, done, ok; };
static void send_range(void *a) {
    struct snd *x = a;
    for (int i = x->s; i < x->e && x->ok; i++) x->ok = send_req(x->h, x->c, i, 0);
    x->done = 1;
}
/* one connection; returns after it is over */
static void session(int kind) {
    u64 a0 = sim_now();
    int h = -1;
    if (nconn >= NC) return;
    h = hnet_connect(PORT, 10 * SEC);
    if (h < 0) {
        CHECK(stopping || may_drop || sim_now() - a0 < 10 * SEC || sim_get_rate(DK_DELAY), "refused", "a connection could not be made");
        return;
    }
    int full = crowded(), c = nconn++;
    if (nconn > NC) sim_inconclusive("too many connections");
    struct conn *k = &Cn[c];
    memset(k, 0, sizeof *k);
    k->opened = 1;
    int n = (int)WR(1, 8), alive = 1;
    if (n > NQ) n = NQ;
    u64 act = a0;
    if (kind <= 2) {                               /* honest client */
        int pipe = kind == 1 ? (int)WR(2, 5) : 1;
        k->good = 1;
        for (int s = 0; s < n && alive;) {
            int e = s + pipe > n ? n : s + pipe;
            for (int i = s; i < e; i++) { k->n = i + 1; set_req(k, i, W(10) == 1); }
            struct snd x = {h, c, s, e, 0, 1};
            int th = -1;
            if (pipe > 1) th = sim_spawn(send_range, &x);       /* sends while responses are read */
            else send_range(&x);
            if (!x.ok) CHECK(full || excused(act), "dropped", "connection %d was closed by the server while a request was being sent", c);
            for (int i = s; i < e && alive && (x.ok || pipe > 1); i++) {
                if (!k->rlen[i]) continue;
                alive = read_resp(h, c, i, full ? 0 : act);
            }
            if (th >= 0) sim_join(th);
            if (!x.ok) alive = 0;
            /* silent for nearly the idle time-out before this request: may be closed after it */
            if (idle_ms && sim_now() - act + (sim_get_rate(DK_DELAY) ? 1000 : 300) * MS + sim_injected() >= (u64)idle_ms * MS) full = 1;
            act = sim_now();
            s = e;
            if (W(4) == 1) { u32 p = W(3) == 1 ? WR(100, 1500) : WR(1, 60); sim_sleep_ns(p * MS); sim_probe("client pauses"); }
            if (stopping && W(2)) break;
        }
        if (alive) {
            /* requests without response are handled, too */
            u64 a = sim_now();
            for (int i = 0; i < 400 && k->next < k->n && !stopping && !hnet_eof(h); i++) sim_sleep_ns(50 * MS);
            if (k->next < k->n && !full && !excused(act) && sim_now() - a > 4 * sim_injected_since(a)) sim_fail("not-handled", "request %d of connection %d was never handled", k->next, c);
            /* and nothing else is written */
            if (W(2)) {
                u8 x;
                long r = hnet_recv(h, &x, 1, WR(1, 300) * MS);
                CHECK(r <= 0, "extra-response", "connection %d got data nobody asked for", c);
                if (r != -2) CHECK(full || excused(act), "dropped", "connection %d was closed by the server while idle", c);
            }
        }
    } else if (kind == 3) {                        /* breaks off within a request */
        k->n = 1; set_req(k, 0, W(2));
        send_req(h, c, 0, 1);
        sim_probe("request cut off");
        if (W(2)) sim_sleep_ns(WR(1, 2000) * MS);
    } else if (kind == 4) {                        /* impossible length */
        u32 nl = htonl(W(2) ? 1024 * 1024 + 1 + W(1000) : 0xffffff00u + W(256));
        hnet_send_for(h, &nl, 4, SEC);
        char junk[64];
        fill(junk, 63, 0, 60, 0);
        hnet_send_for(h, junk, 60, SEC);
        sim_probe("impossible length");
        u8 x; long r; u64 a = sim_now();
        while ((r = hnet_recv(h, &x, 1, SEC)) == -2 && sim_now() - a < 20 * SEC + 4 * sim_injected_since(a) && !stopped);
        CHECK(r != -2 || stopping, "not-closed", "a connection with an impossible frame length stays open");
    } else if (kind == 5) {                        /* silent */
        u8 x; long r; u64 a = sim_now();
        u64 lim = idle_ms ? 2 * (u64)idle_ms * MS + 4 * SEC : WR(1, 8) * SEC;
        while ((r = hnet_recv(h, &x, 1, SEC)) == -2 && sim_now() - a < lim + (idle_ms ? 4 * sim_injected_since(a) : 0) && !stopping);
        if (idle_ms && !stopping) CHECK(r != -2, "idle-not-closed", "a silent connection is still open after %.1f s, the time-out is %d ms", (double)(sim_now() - a) / SEC, idle_ms);
        if (r != -2) CHECK(full || excused(a), "dropped", "a silent connection was closed after %.1f s, the time-out is %d ms", (double)(sim_now() - a) / SEC, idle_ms);
        sim_probe(idle_ms ? "silent client" : "silent client without time-out");
    } else {                                       /* asks and never reads */
        k->n = n;
        for (int i = 0; i < n; i++) { set_req(k, i, W(2)); if (k->rlen[i]) k->rlen[i] = WR(20000, 50000); }
        for (int i = 0; i < n && alive; i++) {
            u32 l = k->len[i] + (u32)k->nul[i];
            char *b = malloc(l + 44);
            u32 nl = htonl(l);
            memcpy(b, &nl, 4); fill(b + 4, c, i, k->len[i], 0); if (k->nul[i]) b[4 + k->len[i]] = 0;
            k->state[i] = REQ_WHOLE;
            alive = hnet_send_for(h, b, l + 4, 2 * SEC) == (int)(l + 4);
            free(b);
        }
        sim_sleep_ns(WR(1, 6) * SEC);
        sim_probe("client that never reads");
    }
    k->closed = 1;
    if (W(3) == 1) hnet_reset(h); else hnet_close(h);
}
static void peer(void *a) {
    u32 mask = (u32)(long)a;
    int n = (int)WR(1, 6);
    while (n-- && !stopping) {
        int kind = (int)W(7);
        if (!(mask >> kind & 1)) kind = (int)W(2);
        session(kind);
        if (W(3) == 1) sim_sleep_ns(WR(1, 500) * MS);
    }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(5000 * SEC, 6000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_THREAD) | F(DK_RESET) | F(DK_DELAY) | F(DK_ACCEPT) | F(DK_SPURIOUS));
    memset(Cn, 0, sizeof Cn);
    nconn = stopping = stopped = in_cb = handled = answered = dropped_ok = 0;
    stop_at = 0;
    static const int idles[] = {0, 0, 1500, 5000, 30000};
    idle_ms = idles[C(5)];
    slow_cb = C(3) == 1 ? 2500 : 60;
    if (C(2)) sim_set_rate(DK_OOM, 0);
    if (C(2)) { sim_set_rate(DK_RESET, 0); sim_set_rate(DK_ACCEPT, 0); }
    u32 oom = sim_get_rate(DK_OOM), thr = sim_get_rate(DK_THREAD);
    sim_nofault_begin();
    tr = mcp_transport_tcp_create("127.0.0.1", PORT, (u32)idle_ms);
    sim_nofault_end();
    CHECK(tr, "create-failed", "the transport could not be created");
    int r = mcp_transport_start(tr, on_msg, &handled, 0);
    if (r) {
        CHECK(oom || thr, "start-failed", "the transport could not be started");
        goto destroy;
    }
    started = sim_now();
    may_drop = oom || sim_get_rate(DK_RESET) || sim_get_rate(DK_ACCEPT);
    int tid[8], np = (int)CR(1, 6);
    u32 mask = CR(0, 127) | 7;
    for (int i = 0; i < np; i++) tid[i] = sim_spawn(peer, (void *)(long)mask);
    int early = C(3) == 1;
    if (early) sim_sleep_ns(WR(0, 3000) * MS);
    else {
        for (int i = 0; i < np; i++) sim_join(tid[i]);
        /* every connection is over: a new one is served */
        sim_faults_off();
        may_drop = 0;
        u64 b = sim_now();
        while (net_open_sockets() > 3 && sim_now() - b < 30 * SEC + 4 * sim_injected_since(b)) sim_sleep_ns(100 * MS);
        CHECK(net_open_sockets() <= 3, "socket-left", "%d sockets are open after all clients are gone", net_open_sockets());
        if (sim_now() - started < 60 * SEC && nconn < NC) { int n0 = nconn; session(0); if (nconn == n0) sim_fail("refused", "a connection could not be made after all others were closed"); sim_probe("served after all others"); }
    }
    u64 a = sim_now();
    stopping = 1;
    if (C(3)) {
        mcp_transport_stop(tr);
        stopped = 1; stop_at = sim_now();
        CHECK(sim_now() - a < 5 * SEC + (u64)slow_cb * MS + 2 * sim_injected_since(a), "stop-slow", "stopping took %.1f s", (double)(sim_now() - a) / SEC);
        CHECK(!in_cb, "stop-early", "stop returned while the handler ran");
        if (C(2)) mcp_transport_stop(tr);
        sim_probe(early ? "stopped with clients" : "stopped");
    }
destroy:
    a = sim_now();
    mcp_transport_destroy(tr);
    stopped = 1; if (!stop_at) stop_at = sim_now();
    CHECK(sim_now() - a < 5 * SEC + (u64)slow_cb * MS + 2 * sim_injected_since(a), "stop-slow", "destroying took %.1f s", (double)(sim_now() - a) / SEC);
    CHECK(!in_cb, "stop-early", "destroy returned while the handler ran");
    CHECK(net_open_sockets() == 0, "socket-left", "%d sockets are open after destroy", net_open_sockets());
    if (!r && early) for (int i = 0; i < np; i++) sim_join(tid[i]);
    sim_sleep_ns(300 * MS);
    CHECK(sim_threads_alive() == 0, "thread-left", "%d threads still run after destroy", sim_threads_alive());
    if (handled >= 3 && nconn >= 2) sim_mark_nontrivial();
    sim_state((u64)nconn << 30 | (u64)handled << 16 | (u64)answered << 2 | (u64)early);
}
HARNESS(p07, "P07", "tcp-server", run, "TCP server transport, acceptor, client handlers, framing, thread pool, buffer pool, locks", "network, clients, message handler, clocks",
        "at least two connections and three requests handled and their responses compared byte for byte", 1)
MEMORY_HARNESS(p07_mem, "memory-tcp-server", run,
        "TCP server transport, acceptor, client handlers, framing, thread pool, buffer pool, locks",
        "network, clients, message handler, clocks", 1)
