/* P29: calls of the client library over pooled TCP connections. */
#include "sim.h"
#include "mcp_client.h"
#include "mcp_tcp_pool_transport.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <arpa/inet.h>

#define PORT 7350
#define NT 6
#define NR 300
#define NCONN 300
enum { A_OK, A_LATE, A_NEVER, A_CLOSE, A_RESET, A_HALF, A_HALF_CLOSE, A_EMPTY, A_HUGE_LEN, A_OK_CLOSE, A_SLOW, A_NACT };
static mcp_client_t *cl;
static u32 rt, ct, maxc, nt;                     /* request and connect time-out, most connections, callers */
static struct req { int seen, bad, iserr, code, full, ended; u32 len; u64 full_at, seen_at, pause; } R[NR];
static struct sc { int h, dead; u64 dead_at; } S[NCONN];
static int nreq, nsc, want_up, over, quit, rough, inject, stopping, waiting;
static u64 down_at, closed_at, busy_at, maxlat;
static int incall[NT];

static int sendall(struct sc *c, const char *b, u32 l) {
    u32 o = 0;
    while (o < l && !over) {
        u32 m = W(4) ? l - o : 1 + W(l - o);
        int r = hnet_send_for(c->h, b + o, m, 300 * MS);
        if (r < (int)m && errno != EAGAIN) return 0;
        o += (u32)r;
    }
    return o == l;
}
static void rest(u64 d) {                        /* a long pause that ends with the run */
    u64 e = sim_now() + d;
    while (!over && sim_now() < e) { u64 k = e - sim_now(); sim_sleep_ns(k < 50 * MS ? k : 50 * MS); }
}
/* 0 if the connection is to be ended, -1 if it is to be reset */
static int serve(struct sc *c, char *b) {
    char *p = strstr(b, "\"id\":"), *t = strstr(b, "tok");
    CHECK(p && t, "bad-request", "the server got a message that is no request: %.60s", b);
    u64 id = strtoull(p + 5, 0, 10);
    int q = atoi(t + 3);
    CHECK(q >= 0 && q < nreq, "bad-request", "the server got request %d, there are %d", q, nreq);
    struct req *r = &R[q];
    CHECK(!r->seen, "sent-twice", "request %d arrived twice at the server", q);
    u32 n = 0;
    for (char *x = t; *x && *x != '"'; x++) n += *x == 'p';
    CHECK(n == r->len, "changed", "request %d arrived with %u of %u bytes", q, n, r->len);
    r->seen = 1; r->seen_at = sim_now();
    int act = rough ? (int)W(rough == 1 ? 40 : A_NACT + 4) : 0;
    if (act >= A_NACT) act = A_OK;
    if (act == A_OK && W(8) == 1) act = A_SLOW;
    r->bad = act != A_OK && act != A_OK_CLOSE && act != A_SLOW;
    r->iserr = W(5) == 1; r->code = -32000 - (int)W(90);
    char *m = malloc(12000), big[8100] = "";
    if (W(10) == 1) { u32 k = WR(100, 8000); memset(big, 'x', k); big[k] = 0; }
    int l = r->iserr ? snprintf(m + 4, 11000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"E%d.%s\"}}", (unsigned long long)id, r->code, q, big)
                     : snprintf(m + 4, 11000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"v\":\"V%d.%s\"}}", (unsigned long long)id, q, big);
    u32 nl = htonl((u32)l);
    memcpy(m, &nl, 4);
    u32 tot = (u32)l + 4;
    sim_log("server %d: request %d, action %d", (int)(c - S), q, act);
    if (W(2)) { r->pause = WR(1, rt * 4 / 10) * MS; sim_sleep_ns(r->pause); }
    int go = 1;
    static const char *names[] = {"answered", "late answer", "no answer", "closed instead of an answer", "reset instead of an answer", "half an answer", "half an answer, then closed", "empty answer", "oversized answer", "answered, then closed", "slow answer"};
    sim_probe(names[act]);
    if (act != A_OK && act != A_SLOW) sim_count_fault(DK_PEER);
    switch (act) {
    case A_LATE: rest((u64)rt * WR(11, 30) / 10 * MS); sendall(c, m, tot); break;
    case A_NEVER: break;
    case A_CLOSE: go = 0; break;
    case A_RESET: go = -1; break;
    case A_HALF: sendall(c, m, 1 + W(tot - 1)); break;
    case A_HALF_CLOSE: sendall(c, m, 1 + W(tot - 1)); if (W(2)) sim_sleep_ns(WR(1, 20) * MS); go = W(2) ? 0 : -1; break;
    case A_EMPTY: memset(m, 0, 4); sendall(c, m, 4); break;
    case A_HUGE_LEN: memset(m, 0x7f, 4); sendall(c, m, 4); break;
    case A_SLOW: {
        u32 k = 1 + W(tot - 1);
        go = sendall(c, m, k);
        u64 d = WR(1, rt * 4 / 10) * MS;
        r->pause += d;
        sim_sleep_ns(d);
        go = go && sendall(c, m + k, tot - k);
        break; }
    default: go = sendall(c, m, tot); break;
    }
    if (act == A_OK || act == A_SLOW || act == A_OK_CLOSE) { if (go) { r->full = 1; r->full_at = sim_now(); } }
    sim_log("server %d: sent %d", (int)(c - S), r->full);
    if (act == A_OK_CLOSE) { if (W(2)) { u64 d = WR(1, 300) * MS; if (closed_at < sim_now() + d) closed_at = sim_now() + d; rest(d); } go = W(2) ? 0 : -1; r->bad |= go < 0; }   /* a reset may overtake the answer */
    free(m);
    return go;
}
static void srv_conn(void *a) {
    struct sc *c = a;
    char *b = malloc(70000);
    u32 have = 0;
    int go = 1;
    while (!over && go > 0) {
        if (!want_up) { go = W(2) ? 0 : -1; break; }
        long r = hnet_recv(c->h, b + have, W(3) ? 60000 - have : 1 + W(100), 25 * MS);
        if (r == -2) continue;
        if (r <= 0) break;
        have += (u32)r;
        if (have < 4) continue;
        u32 l; memcpy(&l, b, 4); l = ntohl(l);
        CHECK(l > 0 && l < 50000, "bad-request", "the server got a frame with length %u", l);
        if (have < l + 4) continue;
        CHECK(have == l + 4, "shared", "a second request was sent over a connection before the first was answered");
        char *m = malloc(l + 1);
        memcpy(m, b + 4, l); m[l] = 0;
        have = 0;
        go = serve(c, m);
        free(m);
    }
    if (!over && closed_at < sim_now()) closed_at = sim_now();
    if (go < 0) hnet_reset(c->h); else hnet_close(c->h);
    c->dead = 1;
    free(b);
}
static void acceptor(void *a) {
    (void)a;
    int tid[NCONN], l = -1;
    while (!over) {
        if (want_up && l < 0) l = hnet_listen(PORT);
        if (!want_up && l >= 0) { hnet_close(l); l = -1; }
        if (l < 0) { down_at = sim_now(); sim_sleep_ns(5 * MS); continue; }
        int h = hnet_accept(l, 10 * MS);
        if (h < 0) continue;
        if (nsc >= NCONN) { hnet_close(h); sim_inconclusive("too many connections"); }
        struct sc *c = &S[nsc];
        *c = (struct sc){.h = h};
        tid[nsc++] = sim_spawn(srv_conn, c);
    }
    if (l >= 0) hnet_close(l);
    for (int i = 0; i < nsc; i++) sim_join(tid[i]);
}
static void busy(void) { if ((u32)waiting > maxc) busy_at = sim_now(); }
/* one call; 1 if it was answered */
static int call(int t) {
    if (nreq >= NR) sim_inconclusive("too many requests");
    int q = nreq++;
    struct req *r = &R[q];
    memset(r, 0, sizeof *r);
    char *par = malloc(6000), *res = 0, *em = 0;
    r->len = W(6) == 1 ? WR(1000, 5000) : W(30);
    int o = snprintf(par, 100, "{\"a\":\"tok%d.", q);
    memset(par + o, 'p', r->len); strcpy(par + o + r->len, "\"}");
    mcp_error_code_t ec = 0;
    waiting++; busy();
    u64 t0 = sim_now();
    sim_log("request %d starts", q);
    incall[t] = 1;
    int rc = mcp_client_send_request(cl, "echo", par, &res, &ec, &em);
    incall[t] = 0;
    u64 t1 = sim_now(), sl = 100 * MS + maxlat + 2 * sim_injected_since(t0);
    busy(); waiting--;
    r->ended = 1;
    sim_log("request %d ends: %d %s", q, rc, em ? em : "");
    CHECK(t1 - t0 <= (u64)(3 * rt + ct + 1000) * MS + r->pause + 2 * sl, "too-late", "request %d took %.0f ms, the time-out is %u ms", q, (double)(t1 - t0) / 1e6, rt);
    int ok = 0, a = -1;
    char *v = rc == 0 && res ? strstr(res, "\"V") : 0;
    if (rc == 0 && !ec) {
        CHECK(v && sscanf(v, "\"V%d.", &a) == 1 && a == q && r->seen && !r->iserr, "wrong-response", "request %d was given a response that is not its own: %.60s", q, res ? res : "(none)");
        ok = 1;
    } else if (em && em[0] == 'E') {
        CHECK(sscanf(em, "E%d.", &a) == 1 && a == q && r->seen && r->iserr && (int)ec == r->code, "wrong-response", "request %d was given an error that is not its own: %.60s", q, em);
        ok = 1;
    }
    if (ok) sim_mark_nontrivial();
    else if (!stopping) {
        int ex = inject || r->bad || (down_at && down_at + sl >= t0);
        if (!ex && !r->seen) {
            /* not sent: no connection was free in time, or the one taken had been closed by the server */
            ex = (busy_at && busy_at >= t0 && t1 - t0 + 2 * MS >= rt * MS) || (closed_at && closed_at + sl >= t0) || ((sim_injected_since(t0) || sl >= rt * MS) && t1 - t0 + 2 * MS >= rt * MS);
            if (ex) sim_probe("no connection");
        }
        if (!ex && r->seen) ex = (r->full ? r->full_at : t1) + sl >= r->seen_at + rt * MS || (closed_at && closed_at + sl >= r->seen_at && !r->full);
        CHECK(ex, "failed", "request %d failed after %.0f ms without a reason (%s)", q, (double)(t1 - t0) / 1e6, r->full ? "its response was sent" : r->seen ? "it was sent" : "it was not sent");
        sim_probe("call failed");
    }
    free(res); free(em); free(par);
    return ok;
}
static void caller(void *a) {
    int t = (int)(long)a, n = (int)WR(1, 14);
    sim_nofault_begin();
    mcp_arena_init_current_thread(4096);               /* responses are parsed in the calling thread */
    sim_nofault_end();
    for (int i = 0; i < n && !quit; i++) {
        if (W(3) == 1) sim_sleep_ns((W(4) ? WR(1, 60) : W(8) ? WR(100, 2000) : WR(20000, 70000)) * MS);
        if (quit) break;
        call(t);
    }
    mcp_arena_destroy_current_thread();
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    memset(S, 0, sizeof S); memset(R, 0, sizeof R); memset(incall, 0, sizeof incall);
    nreq = nsc = over = quit = stopping = waiting = 0;
    down_at = closed_at = busy_at = 0;
    want_up = 1;
    sim_limit(8000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SPURIOUS));
    inject = sim_get_rate(DK_RESET) > 0 || sim_get_rate(DK_REFUSE) > 0 || sim_get_rate(DK_CONN_TIMEOUT) > 0;
    maxlat = 20 * MS;
    if (C(3) == 1) { net_config(1 * MS, 40 * MS, 100000); maxlat = 200 * MS; }
    if (sim_get_rate(DK_DELAY)) maxlat += 2 * SEC;
    static const u32 tm[] = {100, 500, 1000, 1000, 5000, 10000};
    rt = tm[C(6)]; ct = CR(0, 1) ? 1000 : 5000;
    maxc = CR(1, 5); nt = CR(1, NT);
    rough = (int)C(3);
    static const int idle[] = {100, 1000, 30000, 0};
    int acc = sim_spawn(acceptor, 0), tid[NT];
    sim_sleep_ns(20 * MS);
    mcp_transport_t *tr = mcp_tcp_pool_transport_create("127.0.0.1", PORT, C(2) ? 0 : CR(0, maxc), maxc, idle[C(4)], (int)ct, (int)rt);
    CHECK(tr || sim_alloc_failed(), "create-failed", "the transport could not be created");
    if (!tr) { over = 1; sim_join(acc); return; }
    mcp_client_config_t cc = {.request_timeout_ms = rt};
    cl = mcp_client_create(&cc, tr);
    if (!cl) {
        CHECK(inject || sim_injected() || sim_alloc_failed(), "create-failed", "the client could not be created");
        over = 1;
        sim_join(acc);
        return;
    }
    for (u32 i = 0; i < nt; i++) tid[i] = sim_spawn(caller, (void *)(long)i);
    int phases = (int)CR(0, 3);
    for (int p = 0; p < phases; p++) {
        sim_sleep_ns((W(2) ? WR(1, 100) : WR(100, 3000)) * MS);
        if (W(3) == 1 && rough) {
            want_up = 0;
            down_at = sim_now();
            sim_count_fault(DK_PEER);
            sim_sleep_ns(WR(10, 2000) * MS);
            want_up = 1;
            down_at = sim_now();
            sim_probe("server away");
        }
    }
    int early = C(3) == 1;
    if (early) { sim_sleep_ns(WR(1, 500) * MS); for (u32 i = 0; i < nt; i++) if (incall[i]) sim_probe("destroyed with calls waiting"); quit = 1; }
    else {
        for (u32 i = 0; i < nt; i++) {
            int ok = 0;
            for (int k = 0; k < 60 && !ok; k++) ok = sim_join_for(tid[i], 100 * SEC);
            CHECK(ok, "call-stuck", "a call does not return");
        }
        /* the server behaves from now on: calls succeed once the broken connections are used up */
        sim_faults_off();
        rough = 0; inject = 0;
        sim_sleep_ns((u64)(rt * 4 + ct * 3) * MS + 3 * SEC);
        int bad = 0, good = 0;
        for (int i = 0; i < 12; i++) { waiting = 0; busy_at = 0; if (call(0)) good++; else bad++; }
        CHECK(good >= 12 - (int)maxc, "not-usable", "%d of 12 calls failed though the server behaves, there are at most %u connections", bad, maxc);
    }
    stopping = 1;
    u64 a = sim_now();
    mcp_client_destroy(cl);
    CHECK(sim_now() - a <= (u64)(3 * rt + ct + 10000) * MS + 3 * sim_injected_since(a), "destroy-slow", "destroying the client took %.1f s", (double)(sim_now() - a) / SEC);
    if (early) for (u32 i = 0; i < nt; i++) { int ok = 0; for (int k = 0; k < 10 && !ok; k++) ok = sim_join_for(tid[i], 20 * SEC); CHECK(ok, "call-stuck", "a call does not return after the client was destroyed"); }
    CHECK(net_open_sockets() == 0, "left-open", "%d connections stay open after the client was destroyed", net_open_sockets());
    over = 1;
    sim_join(acc);
    sim_state((u64)maxc * 1000 + (u64)nt * 100 + (u64)(nreq / 8));
}
#define REAL "client library, pooled TCP transport, connection pool, framing, socket utilities, JSON"
#define STUB "network, clock, threads; the server is a model that answers, answers late, in pieces, wrongly or never and closes connections"
HARNESS(tcppool, "P29", "pooled-client", run, REAL, STUB, "a call returned with the response to its own request", 1)
MEMORY_HARNESS(tcppool_mem, "memory-pooled-client", run, REAL, STUB, 1)
