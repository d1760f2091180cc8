/* P06: TCP client transport, loss of the connection and reconnection.
 * P04: messages sent at the same time on one connection. */
#include "sim.h"
#include "mcp_tcp_client_transport.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <arpa/inet.h>
#include <errno.h>

#define PORT 7100
#define NS 5            /* senders */
#define NM 60           /* messages each */
#define NCONN 64
#define NSRV 40         /* server messages per connection */
enum { ST_DIS, ST_CONNECTING, ST_CONNECTED, ST_RECONNECTING, ST_FAILED };
static const char *stn[] = {"disconnected", "connecting", "connected", "reconnecting", "failed"};
static mcp_transport_t *tr;
static mcp_reconnect_config_t cfg;
static int have_cfg;
/* server */
static struct sc { int used, h, kill, silent, dead, nsent, wait; int last[NS]; u32 slen[NSRV]; int sgot, part, drop, mid; u64 since; } S[NCONN];
static int nsc, want_up, is_up, over;
/* client side of the messages */
static struct msg { int sent, ok, gen, got; u32 len; u64 at; } M[NS][NM];
static int nsenders, quit, sent_ok;
static u32 bigmsg;
/* reported state */
static int cur, gen, started, stopping, stopped, manual, nloss, nrec, failed_seen, registered, nevents, ever_manual;
static u64 since, ep_start;
static int cut;
static u32 ep_base, failed_at;
static int hard;                      /* faults that keep an attempt from reaching connect() */
static int in_send[4096];

static u8 pat(int t, int s, u32 i) { return alpha_byte('a', (u32)(t * 11 + s * 5 + (int)(i * 3 + (i >> 6)))); }
static u32 fill(char *b, char k, int t, int s, u32 l) {
    u32 h = (u32)snprintf(b, 40, "%c%d.%d:", k, t, s);
    if (l < h) l = h;
    for (u32 i = h; i < l; i++) b[i] = (char)pat(t, s, i);
    return l;
}
static double base_delay(u32 k) {
    double d = cfg.initial_reconnect_delay_ms * pow(cfg.backoff_factor, k - 1.0);
    return d > cfg.max_reconnect_delay_ms ? cfg.max_reconnect_delay_ms : d;
}
static void check_delays(u32 n) {
    for (u32 k = 1; k <= n; k++) {
        u64 t = net_connect_at(ep_base + k - 1), p = k == 1 ? ep_start : net_connect_at(ep_base + k - 2);
        if (!t || !p) continue;
        double d = (double)(t - p) / 1e6, b = base_delay(k);
        CHECK(d + 2 >= b * (cfg.randomize_delay ? 0.1 : 1), "too-soon", "attempt %u came %.0f ms after the last, %.0f ms are configured", k, d, b);
        CHECK(t - p <= (u64)(b * 1e6) + (k > 1 ? 6 : 2) * SEC + 2 * sim_injected_since(p), "too-late", "attempt %u came %.0f ms after the last, at most %.0f ms are configured", k, d, b);
    }
}
static void on_state(void *ud, mcp_connection_state_t st, int attempt) {
    CHECK(ud == (void *)&cur, "callback-argument", "the state callback got another user pointer");
    CHECK(!stopped, "late-callback", "a state was reported after stop returned: %s", stn[st]);
    if (!registered) { CHECK((int)st == ST_DIS, "first-state", "the state before start is %s", stn[st]); return; }
    sim_log("state %s -> %s attempt %d, %u connects", stn[cur], stn[st], attempt, net_connects());
    nevents++;
    CHECK((int)st != cur, "state-repeated", "state %s was reported again", stn[st]);
    static const char *legal[] = {           /* from: allowed to */
        "13", "230" "4", "034", "20" "4", "30" "1" };
    int ok = 0;
    for (const char *p = legal[cur]; *p; p++) ok |= *p - '0' == (int)st;
    CHECK(ok, "state-order", "state %s was followed by %s", stn[cur], stn[st]);
    if ((int)st == ST_CONNECTING) CHECK(!started, "state-order", "connecting was reported after the start");
    u32 n = net_connects() - ep_base;
    if (cur == ST_FAILED && !manual && failed_at) CHECK(net_connects() == failed_at || (int)st == ST_CONNECTING, "attempt-after-failure", "an attempt was made after the connection failed for good");
    if (cur == ST_RECONNECTING) {
        if (cfg.max_reconnect_attempts > 0 && !manual)
            CHECK(n <= (u32)cfg.max_reconnect_attempts, "too-many-attempts", "%u attempts were made, %d are configured", n, cfg.max_reconnect_attempts);
        else if (cfg.max_reconnect_attempts > 0)
            CHECK(n <= (u32)cfg.max_reconnect_attempts + 1, "too-many-attempts", "%u attempts were made after a request to reconnect, %d are configured", n, cfg.max_reconnect_attempts);
        if (!manual && !hard) check_delays(n);
        if (n > 2) sim_probe("several attempts");
    }
    if (st == ST_FAILED) {
        failed_seen = 1; failed_at = net_connects();
        if (cur == ST_RECONNECTING && !hard) {
            CHECK(cfg.max_reconnect_attempts > 0, "gave-up", "the transport gave up though attempts are unlimited");
            CHECK(n >= (u32)cfg.max_reconnect_attempts, "gave-up", "the transport gave up after %u of %d attempts", n, cfg.max_reconnect_attempts);
        }
        if (cur == ST_CONNECTING) CHECK(!cfg.enable_reconnect || hard, "gave-up", "the transport gave up at the start though reconnecting is enabled");
        sim_probe("failed");
    }
    if (cur == ST_RECONNECTING || (int)st == ST_CONNECTED) manual = manual > 1;
    if ((int)st == ST_RECONNECTING) { ep_base = net_connects(); ep_start = sim_now(); CHECK(cfg.enable_reconnect || ever_manual, "not-enabled", "reconnecting though it is not enabled"); }
    if ((int)st == ST_CONNECTED) {
        gen++;
        if (cur == ST_RECONNECTING) { nrec++; sim_probe("reconnected"); }
    }
    if (cur == ST_CONNECTED) {
        nloss++;
        if (!stopping && !sim_get_rate(DK_RESET) && !hard && nsc && !cut && started) {
            struct sc *c = &S[nsc - 1];
            CHECK(c->kill || c->dead || c->mid, "given-up", "a connection nobody ended was given up");
        }
    }
    cur = (int)st;
    since = sim_now();
}
static char *on_msg(void *ud, const void *d, size_t n, int *err) {
    (void)err;
    CHECK(ud == (void *)&M, "callback-argument", "the message callback got another user pointer");
    CHECK(!stopped, "late-callback", "a message was handed over after stop returned");
    int c = -1, s = -1, used = 0;
    char hd[24] = "";
    memcpy(hd, d, n < 23 ? n : 23);
    CHECK(sscanf(hd, "S%d.%d:%n", &c, &s, &used) == 2 && used && c >= 0 && c < nsc && s >= 0 && s < S[c].nsent, "invented-message", "a message nobody sent was handed over (%zu bytes)", n);
    CHECK(s == S[c].sgot, "message-order", "message %d of connection %d was handed over, %d was due", s, c, S[c].sgot);
    CHECK(n == S[c].slen[s], "message-length", "message %d of connection %d has %zu bytes, %u were sent", s, c, n, S[c].slen[s]);
    for (u32 i = (u32)used; i < n; i++) if (((const u8 *)d)[i] != pat(c, s, i)) sim_fail("message-data", "byte %u of message %d of connection %d differs", i, s, c);
    S[c].sgot++;
    if (W(8) == 1) sim_sleep_ns(WR(1, 30) * MS);
    return W(4) == 1 ? strdup("reply nobody wants") : 0;
}
static void on_err(void *ud, int code) {
    (void)ud; (void)code;
    CHECK(!stopped || in_send[sim_self()], "late-callback", "an error was reported after stop returned");
}
/* ---- server ---------------------------------------------------------------- */
static void take(struct sc *c, const char *b, u32 l) {
    sim_log("server %d got %u bytes: %.8s", (int)(c - S), l, b);
    if (l && b[0] == '{') { sim_probe("ping at server"); return; }
    int t = -1, s = -1, used = 0;
    char hd[24] = "";
    memcpy(hd, b, l < 23 ? l : 23);
    CHECK(sscanf(hd, "M%d.%d:%n", &t, &s, &used) == 2 && used && t >= 0 && t < NS && s >= 0 && s < NM && M[t][s].sent, "mixed-message", "the server got a message nobody sent (%u bytes: %.20s)", l, hd);
    struct msg *m = &M[t][s];
    CHECK(m->len == l, "mixed-message", "message %d.%d has %u bytes at the server, %u were sent", t, s, l, m->len);
    for (u32 i = (u32)used; i < l; i++) if ((u8)b[i] != pat(t, s, i)) sim_fail("mixed-message", "byte %u of message %d.%d differs at the server", i, t, s);
    CHECK(!m->got, "duplicate", "message %d.%d arrived twice", t, s);
    CHECK(s > c->last[t] - 1, "reordered", "message %d.%d arrived after a later one of the same sender", t, s);
    c->last[t] = s + 1;
    m->got = 1;
}
static void srv_send(struct sc *c) {
    int k = (int)(c - S);
    if (c->nsent >= NSRV) return;
    u32 l = W(6) == 1 ? WR(1000, 20000) : WR(8, 100);
    char *b = malloc(l + 50);
    l = fill(b + 4, 'S', k, c->nsent, l);
    u32 nl = htonl(l);
    memcpy(b, &nl, 4);
    c->slen[c->nsent++] = l;
    u32 o = 0;
    while (o < l + 4 && !c->kill && !over) {
        u32 m = W(3) ? l + 4 - o : 1 + W(l + 4 - o);
        int r = hnet_send_for(c->h, b + o, m, 200 * MS);
        if (r < (int)m && errno != EAGAIN) break;
        o += (u32)r;
        if (W(3) == 1) sim_sleep_ns(WR(1, 20) * MS);
    }
    if (o < l + 4) c->drop = c->mid = 1;
    free(b);
}
static void srv_conn(void *a) {
    struct sc *c = a;
    char *b = malloc(300000);
    u32 have = 0;
    while (!over && !c->kill) {
        if (c->silent) { sim_sleep_ns(20 * MS); continue; }
        if (!c->part && W(12) == 1) srv_send(c);
        long r = hnet_recv(c->h, b + have, W(3) ? 200000 - have : 1 + W(200), 25 * MS);
        if (r == -2) continue;
        if (r <= 0) break;
        have += (u32)r; 
        for (;;) {
            if (have < 4) break;
            u32 l; memcpy(&l, b, 4); l = ntohl(l);
            CHECK(l > 0 && l < 150000, "mixed-message", "the server got a frame with length %u", l);
            if (have < l + 4) break;
            take(c, b + 4, l);
            memmove(b, b + 4 + l, have - 4 - l);
            have -= 4 + l;
        }
    }
    c->drop = 1;
    if (c->kill == 3 && !c->mid) { u8 x[3] = {0, 0, 1}; hnet_send_for(c->h, x, 3, 50 * MS); c->part = 1; }                 /* torn frame */
    if (c->kill == 4 && !c->mid) { u8 x[8] = {0xff, 0xff, 0xff, 0xf0, 1, 2}; hnet_send_for(c->h, x, 8, 50 * MS); c->part = 1; }   /* impossible length */
    if (c->kill == 4 && !c->mid) { u8 x[64]; u64 t = sim_now(); while (hnet_recv(c->h, x, 64, 100 * MS) != 0 && sim_now() - t < SEC); }
    c->dead = 1;
    if (c->kill == 2) hnet_reset(c->h); else hnet_close(c->h);
    free(b);
}
static void acceptor(void *a) {
    (void)a;
    int tid[NCONN], l = -1;
    while (!over) {
        if (want_up && l < 0) l = hnet_listen(PORT);
        if (!want_up && l >= 0) { hnet_close(l); l = -1; }
        is_up = l >= 0;
        if (l < 0) { sim_sleep_ns(5 * MS); continue; }
        int h = hnet_accept(l, 10 * MS);
        if (h < 0) continue;
        if (nsc >= NCONN) { hnet_close(h); sim_inconclusive("too many connections"); }
        struct sc *c = &S[nsc];
        memset(c, 0, sizeof *c);
        c->used = 1; c->h = h; c->since = sim_now();
        nsc++;
        tid[nsc - 1] = sim_spawn(srv_conn, c);
    }
    if (l >= 0) hnet_close(l);
    for (int i = 0; i < nsc; i++) sim_join(tid[i]);
}
static int live(void) { int n = 0; for (int i = 0; i < nsc; i++) n += !S[i].dead; return n; }
static int p_state(void *a) { int g = *(int *)a; return gen != g || cur != ST_CONNECTED; }
static int lost_or(int g, u64 bound) {
    u64 a = sim_now();
    for (int i = 0; i < 60; i++) {
        if (sim_wait_until(p_state, &g, 2 * SEC)) return 1;
        if (sim_now() - a > bound + 2 * sim_injected_since(a)) break;
    }
    return 0;
}
/* ---- senders ---------------------------------------------------------------- */
static int send_one(int t, int s) {
    struct msg *m = &M[t][s];
    u32 l = W(5) == 1 ? WR(500, bigmsg) : WR(8, 80);
    char *b = malloc(l + 50);
    l = fill(b + 4, 'M', t, s, l);
    u32 nl = htonl(l);
    memcpy(b, &nl, 4);
    m->len = l; m->sent = 1;
    int g = gen, c0 = cur == ST_CONNECTED && started && !stopping, r;
    u64 o0 = sim_alloc_failed();
    in_send[sim_self()]++;
    if (W(3) == 1) r = mcp_transport_send(tr, b, l + 4);
    else {
        mcp_buffer_t v[6];
        u32 n = 1 + W(5), o = 0;
        for (u32 i = 0; i < n; i++) {
            u32 e = i + 1 == n ? l + 4 : i == 0 && W(2) ? 4 : o + W(l + 5 - o);
            v[i].data = b + o; v[i].size = e - o; o = e;
        }
        r = mcp_transport_sendv(tr, v, n);
    }
    in_send[sim_self()]--;
    sim_log("message %d.%d of %u bytes: %d", t, s, l, r);
    int c1 = cur == ST_CONNECTED && gen == g && !stopping;
    if (c0 && c1 && r) CHECK(sim_alloc_failed() != o0 || lost_or(g, 2 * SEC) || stopping, "send-failed", "a message could not be sent though the transport reports connected all the time");
    m->ok = r == 0 && c0 && c1;
    m->gen = g;
    m->at = sim_now();
    sent_ok += m->ok;
    free(b);
    return r;
}
static void sender(void *a) {
    int t = (int)(long)a;
    for (int s = 0; s < NM && !quit; s++) {
        send_one(t, s);
        if (W(3)) sim_sleep_ns((W(4) ? WR(1, 60) : WR(100, 900)) * MS);
    }
}
static int owed(void *x) {
    for (int t = 0; t < NS; t++) for (int s = 0; s < NM; s++)
        if (M[t][s].ok && M[t][s].gen == gen && !M[t][s].got) { if (x) *(int *)x = t * 1000 + s; return 1; }
    return 0;
}
static int settled(void *a) { int g = *(int *)a; return gen != g || cur != ST_CONNECTED || !owed(0); }
/* everything sent on the present connection arrives unless it is lost */
static void checkpoint(void) {
    int g = gen, w = 0;
    if (cur != ST_CONNECTED) return;
    u64 a = sim_now();
    for (int i = 0; i < 40; i++) {
        if (sim_wait_until(settled, &g, 5 * SEC)) break;
        if (sim_now() - a > 20 * SEC + 4 * sim_injected_since(a)) break;
    }
    if (gen == g && cur == ST_CONNECTED && owed(&w)) sim_fail("message-lost", "message %d.%d was sent while connected and never arrived", w / 1000, w % 1000);
    if (gen == g && cur == ST_CONNECTED) sim_probe("all messages arrived");
}
static int p_conn(void *a) { (void)a; return cur == ST_CONNECTED || cur == ST_FAILED; }
/* the server can be reached: connected again, or out of attempts */
static void expect_connected(void) {
    if (!cfg.enable_reconnect) return;
    u64 a = sim_now(), bound = 20 * (cfg.max_reconnect_delay_ms * MS + 6 * SEC);
    for (int i = 0; i < 200; i++) {
        if (sim_wait_until(p_conn, 0, 10 * SEC)) return;
        if (sim_now() - a > bound + 4 * sim_injected_since(a)) break;
    }
    sim_fail("not-reconnected", "the transport is %s %.0f s after the server came back, loss %d, %u attempts so far", stn[cur], (double)(sim_now() - a) / SEC, nloss, net_connects() - ep_base);
}
static void poker(void *a) {
    (void)a;
    for (int i = 0; i < 12 && !quit; i++) {
        sim_sleep_ns(WR(1, 1500) * MS);
        if (quit || !started || stopping) break;
        int st = (int)mcp_tcp_client_get_connection_state(tr);
        CHECK(st >= ST_DIS && st <= ST_FAILED, "bad-state", "state %d", st);
        if (W(4) == 1) {
            manual = 2; ever_manual = 1;
            int c = cur, g = gen;
            int r = mcp_tcp_client_reconnect(tr);
            if (c == ST_CONNECTED && gen == g && cur == c) CHECK(r == 0 || stopping, "manual-failed", "a request to reconnect failed though connected");
            CHECK(r == 0 || stopping || hard, "manual-failed", "a request to reconnect failed");
            manual = 1;
            sim_probe("manual reconnect");
        }
    }
}
static void join_all(int *tid, int n) {
    for (int i = 0; i < n; i++) {
        u64 a = sim_now();
        int ok = 0;
        for (int k = 0; k < 40 && !ok; k++) { ok = sim_join_for(tid[i], 5 * SEC); if (!ok && sim_now() - a > 30 * SEC + 4 * sim_injected_since(a)) break; }
        CHECK(ok, "send-stuck", "a call of the transport does not return after stop");
    }
}
static void reset(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    memset(S, 0, sizeof S); memset(M, 0, sizeof M); memset(in_send, 0, sizeof in_send);
    nsc = is_up = over = quit = sent_ok = cur = gen = started = stopping = stopped = manual = nloss = nrec = failed_seen = registered = nevents = ever_manual = 0;
    since = ep_start = 0; ep_base = failed_at = 0;
    want_up = 1;
    cut = 0;
}
static void run(void) {
    reset();
    sim_limit(20000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_THREAD) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_SPURIOUS));
    if (C(2)) sim_set_rate(DK_OOM, 0);
    if (C(2)) sim_set_rate(DK_THREAD, 0);
    if (C(2)) sim_set_rate(DK_SOCKET, 0);
    hard = sim_get_rate(DK_OOM) || sim_get_rate(DK_THREAD) || sim_get_rate(DK_SOCKET);
    if (C(3) == 1) net_config(50000, 2 * MS, C(2) ? 200 : 2000);
    bigmsg = C(3) == 1 ? 60000 : 2000;
    cfg = MCP_DEFAULT_RECONNECT_CONFIG;
    static const int maxa[] = {0, 0, 3, 1, 6, 10};
    if (C(6) != 1) {
        cfg.enable_reconnect = C(8) != 1;
        cfg.max_reconnect_attempts = maxa[C(6)];
        cfg.initial_reconnect_delay_ms = CR(0, 3) == 0 ? CR(10, 20) : CR(20, 1500);
        cfg.max_reconnect_delay_ms = CR(50, 6000);
        cfg.backoff_factor = C(4) == 1 ? 1.0f : 1.0f + (float)CR(1, 30) / 10.0f;
        cfg.randomize_delay = C(2);
        have_cfg = 1;
    } else have_cfg = 0;
    sim_nofault_begin();
    if (C(10) == 1) { tr = mcp_transport_tcp_client_create("127.0.0.1", PORT); cfg = MCP_DEFAULT_RECONNECT_CONFIG; sim_probe("default configuration"); }
    else tr = mcp_tcp_client_create_reconnect("127.0.0.1", PORT, have_cfg ? &cfg : 0);
    sim_nofault_end();
    CHECK(tr, "create-failed", "the transport could not be created");
    mcp_tcp_client_set_connection_state_callback(tr, on_state, &cur);
    registered = 1;
    int acc = sim_spawn(acceptor, 0), tid[NS + 1];
    int rounds = C(3) == 1 ? 2 : 1;
    for (int rd = 0; rd < rounds; rd++) {
        want_up = W(4) != 1;
        sim_sleep_ns(20 * MS);
        quit = started = stopping = stopped = 0;
        manual = 0; failed_at = 0;
        int nt = 0;
        int r = mcp_transport_start(tr, on_msg, &M, on_err);
        if (r) {
            CHECK(!cfg.enable_reconnect || hard, "start-failed", "the transport could not be started");
            CHECK(cur == ST_FAILED, "state-after-start", "start failed, the state is %s", stn[cur]);
            sim_probe("start failed");
            break;
        }
        started = 1;
        nsenders = rd ? 0 : (int)CR(0, 3);
        for (int i = 0; i < nsenders; i++) tid[nt++] = sim_spawn(sender, (void *)(long)i);
        if (C(3) == 1) tid[nt++] = sim_spawn(poker, 0);
        int abrupt = C(4) == 1;
        int phases = abrupt ? (int)CR(0, 2) : (int)CR(1, 5);
        for (int p = 0; p < phases; p++) {
            if (W(3)) sim_sleep_ns(WR(1, 3000) * MS); else sim_sleep_ns(WR(1, 60) * MS);
            if (want_up && is_up) { expect_connected(); if (W(2)) checkpoint(); }
            int g = gen, was = cur == ST_CONNECTED;
            int what = (int)W(8), killed = 0;
            if (what == 6 && was) {                                  /* partition */
                sim_count_fault(DK_PARTITION);
                cut = 1;
                net_partition(1);
                if (W(2)) for (int i = 0; i < nsc; i++) if (!S[i].dead) S[i].kill = 2;
                sim_sleep_ns(WR(100, 9000) * MS);
                net_partition(0);
                sim_probe("partition");
                continue;
            }
            if (what == 7) {                                          /* server stalls */
                for (int i = 0; i < nsc; i++) S[i].silent = 1;
                sim_sleep_ns(WR(100, 6000) * MS);
                if (W(2)) for (int i = 0; i < nsc; i++) S[i].silent = 0;
                sim_probe("server stalls");
            }
            int down = W(2);
            if (down) want_up = 0;
            u32 kind = 1 + W(4);
            for (int i = 0; i < nsc; i++) if (!S[i].dead && !S[i].kill) { S[i].kill = (int)kind; killed++; }
            if (killed) sim_count_fault(DK_PEER);
            for (int i = 0; i < nsc; i++) S[i].silent = 0;
            int n0 = nsc;
            if (was && killed && W(2)) CHECK(lost_or(g, 8 * SEC) || nsc != n0, "loss-not-reported", "the connection was ended by the server 8 s ago, the state is still connected");
            if (down) {
                sim_sleep_ns((W(3) ? WR(1, 3000) : WR(1000, 30000)) * MS);
                want_up = 1;
                sim_sleep_ns(50 * MS);
                sim_probe("server was down");
            }
        }
        if (!abrupt) {
            want_up = 1;
            sim_faults_off();
            for (int i = 0; i < nsc; i++) S[i].silent = 0;
            sim_sleep_ns(100 * MS);
            expect_connected();
            if (cur == ST_FAILED && (cfg.enable_reconnect || W(2))) {
                sim_sleep_ns(WR(0, 3000) * MS);
                if (cur == ST_FAILED && !hard) CHECK(net_connects() == failed_at || manual, "attempt-after-failure", "an attempt was made after the connection failed for good");
                manual = 2; ever_manual = 1;
                int rr = mcp_tcp_client_reconnect(tr);
                CHECK(rr == 0, "manual-failed", "a request to reconnect failed");
                manual = 1;
                cfg.enable_reconnect = 1;
                sim_probe("manual reconnect after failure");
                expect_connected();
                CHECK(cur == ST_CONNECTED, "not-reconnected", "the state is %s after a request to reconnect", stn[cur]);
            }
            if (cur == ST_CONNECTED && W(2)) {
                /* a quiet network: the state is the truth */
                int g = gen;
                if (!lost_or(g, 3 * SEC)) {
                    CHECK(live() >= 1, "state-wrong", "connected is reported without a connection");
                    CHECK(mcp_tcp_client_get_connection_state(tr) == MCP_CONNECTION_STATE_CONNECTED, "state-wrong", "the reported states differ");
                    if (nsenders < NS && !M[NS - 1][rd].sent) {
                        u64 a0 = sim_now();
                        int rr = send_one(NS - 1, rd);
                        if (gen == g && cur == ST_CONNECTED) CHECK(rr == 0, "send-failed", "a message could not be sent though connected (%.1f s)", (double)(sim_now() - a0) / SEC);
                    }
                    checkpoint();
                    /* what the server sent arrives, too */
                    int k = nsc - 1, due = S[k].nsent;
                    u64 a1 = sim_now();
                    for (int i = 0; i < 400 && gen == g && cur == ST_CONNECTED && !S[k].drop && S[k].sgot < due; i++) sim_sleep_ns(100 * MS);
                    if (gen == g && cur == ST_CONNECTED && !S[k].drop && nsc == k + 1 && sim_now() - a1 > 4 * sim_injected_since(a1)) CHECK(S[k].sgot >= due, "message-lost", "message %d of the server was never handed over", S[k].sgot);
                    /* one more loss */
                    if (cfg.enable_reconnect) {
                        int was_gen = gen, n0 = nsc;
                        for (int i = 0; i < nsc; i++) if (!S[i].dead && !S[i].kill) S[i].kill = 1;
                        CHECK(lost_or(was_gen, 8 * SEC) || nsc != n0, "loss-not-reported", "the connection was ended by the server, the state is still connected");
                        expect_connected();
                        CHECK(cur == ST_CONNECTED || manual, "not-reconnected", "the state is %s, the server can be reached", stn[cur]);
                        sim_probe("lost and found");
                    }
                }
            }
        }
        quit = 1;
        int direct = rd + 1 == rounds && C(4) == 1;
        if (direct) {
            want_up = 1;
            for (int i = 0; i < nsc; i++) S[i].silent = 0;
            for (int i = 0; i < nt; i++) if (!sim_join_for(tid[i], 20 * SEC)) direct = 0;
        }
        if (!direct) {
            u64 a = sim_now();
            stopping = 1;
            CHECK(mcp_transport_stop(tr) == 0, "stop-failed", "stop failed");
            stopped = 1;
            CHECK(sim_now() - a < 9 * SEC + 2 * sim_injected_since(a), "stop-slow", "stopping took %.1f s", (double)(sim_now() - a) / SEC);
            CHECK(cur == ST_DIS, "state-after-stop", "the state after stop is %s", stn[cur]);
            CHECK(net_open_sockets() == 0, "socket-left", "%d sockets are open after stop", net_open_sockets());
            join_all(tid, nt);
            if (W(2)) CHECK(mcp_transport_stop(tr) == 0, "stop-failed", "a second stop failed");
            if (W(2)) sim_sleep_ns(WR(1, 8000) * MS);
            sim_probe(abrupt ? "stopped early" : "stopped");
            if (rd + 1 < rounds) { stopped = 0; sim_probe("started again"); }
        } else sim_probe("destroyed without stop");
    }
    u64 a = sim_now();
    stopping = 1;
    mcp_transport_destroy(tr);
    stopped = 1;
    CHECK(sim_now() - a < 9 * SEC + 2 * sim_injected_since(a), "stop-slow", "destroying took %.1f s", (double)(sim_now() - a) / SEC);
    CHECK(net_open_sockets() == 0, "socket-left", "%d sockets are open after destroy", net_open_sockets());
    sim_sleep_ns(WR(1, 3000) * MS);
    over = 1;
    sim_join(acc);
    sim_sleep_ns(300 * MS);
    CHECK(sim_threads_alive() == 0, "thread-left", "%d threads still run after destroy", sim_threads_alive());
    if (nrec >= 1 && nloss >= 1) sim_mark_nontrivial();
    sim_state((u64)nloss << 40 | (u64)nrec << 30 | (u64)(sent_ok & 1023) << 10 | (u64)(nevents & 255) << 2 | (u64)failed_seen);
}
HARNESS(p06, "P06", "tcp-client", run, "TCP client transport, receiver, reconnection, framing, socket helpers, locks", "network, server, clocks",
        "the connection was lost and made again at least once, with the attempts, delays, reported states and messages compared with what the server saw", 1)
MEMORY_HARNESS(p06_mem, "memory-tcp-client", run,
        "TCP client transport, receiver, reconnection, framing, socket helpers, locks",
        "network, server, clocks", 1)

static void run_mix(void) {
    reset();
    sim_limit(5000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_DELAY) | F(DK_SPURIOUS) | F(DK_OOM));
    hard = 1;
    static const u32 caps[] = {128, 300, 4000, 65536};
    net_config(50000, 2 * MS, caps[C(4)]);
    bigmsg = C(2) ? 1500 : 20000;
    cfg = MCP_DEFAULT_RECONNECT_CONFIG;
    sim_nofault_begin();
    tr = mcp_transport_tcp_client_create("127.0.0.1", PORT);
    mcp_tcp_client_set_connection_state_callback(tr, on_state, &cur);
    registered = 1;
    int acc = sim_spawn(acceptor, 0), tid[NS];
    sim_sleep_ns(20 * MS);
    int r = mcp_transport_start(tr, on_msg, &M, on_err);
    sim_nofault_end();
    CHECK(r == 0, "start-failed", "the transport could not be started");
    started = 1;
    int n = (int)CR(2, NS), per = (int)CR(2, 12);
    for (int t = 0; t < n; t++) for (int s = per; s < NM; s++) M[t][s].sent = 0;
    quit = 0;
    nsenders = per;
    extern void mix_sender(void *);
    for (int i = 0; i < n; i++) tid[i] = sim_spawn(mix_sender, (void *)(long)i);
    for (int i = 0; i < n; i++) sim_join(tid[i]);
    sim_faults_off();
    checkpoint();
    int all = sent_ok;
    if (all >= 4) sim_mark_nontrivial();
    stopping = 1;
    mcp_transport_stop(tr);
    stopped = 1;
    mcp_transport_destroy(tr);
    over = 1;
    sim_join(acc);
    sim_state((u64)n << 32 | (u64)all << 8 | (u64)per);
}
void mix_sender(void *a) {
    int t = (int)(long)a;
    for (int s = 0; s < nsenders; s++) { send_one(t, s); if (W(4) == 1) sim_sleep_ns(WR(1, 10) * MS); }
}
HARNESS(p04c, "P04", "concurrent-send", run_mix, "TCP client transport, socket helpers, locks", "network, server, clocks",
        "several threads sent at least four messages on one connection and every message was compared at the other end", 1)
