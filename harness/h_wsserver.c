/* P26: WebSocket server transport. */
#include "sim.h"
#include "lws_fake.h"
#include "mcp_websocket_transport.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NP 160
#define NM 40
static struct pe {
    lpeer *p;
    int nsent, ngot, nans, opened, counted, quiet, self_closed, cut;
    struct { char *d; size_t n; int notify; } m[NM];
} P[NP];
static int np, nfault, up, stopping, maxc, oom, resets, answered, big, reused, filling;

static u32 sum(const char *d, size_t n) { u32 h = 7; while (n--) h = h * 31 + (unsigned char)*d++; return h; }

static char *cb(void *u, const void *d, size_t n, int *err) {
    (void)u;
    const char *s = d;
    int c = -1, k = -1;
    *err = 0;
    CHECK(up, "late-callback", "the handler is called after the transport was stopped");
    CHECK(s[n] == 0, "unterminated", "a message of %u bytes is not terminated", (u32)n);
    CHECK(n > 3 && sscanf(s, "{\"c\":%d,\"k\":%d,", &c, &k) == 2 && c >= 0 && c < np, "message-mangled", "the handler got %u bytes: %.40s", (u32)n, s);
    struct pe *e = &P[c];
    CHECK(k == e->ngot, "message-order", "connection %d: the handler got message %d instead of %d", c, k, e->ngot);
    CHECK(k < e->nsent && n == e->m[k].n && !memcmp(s, e->m[k].d, n), "message-mangled", "connection %d message %d arrived changed: %u bytes of %u", c, k, (u32)n, (u32)e->m[k].n);
    e->ngot++;
    if (W(4) == 1) sim_sleep_ns(WR(1, 60) * MS);
    if (e->m[k].notify) return 0;
    int large = W(60) == 1;
    char *r = simh_malloc(large ? 400000 : 9000);
    int l = snprintf(r, 200, "{\"c\":%d,\"k\":%d,\"sum\":%u", c, k, sum(s, n));
    int pad = large ? (int)WR(60000, 300000) : k % 5 == 3 ? 4000 + k * 100 : k;
    if (large) sim_probe("large-response");
    memset(r + l, ' ', (size_t)pad);
    r[l + pad] = '}';
    r[l + pad + 1] = 0;
    return r;
}
static void look(int c) {                    /* what the peer received so far */
    struct pe *e = &P[c];
    for (; e->nans < e->p->nmsg; e->nans++) {
        struct lmsg *m = &e->p->msg[e->nans];
        int cc = -1, k = -1;
        u32 h = 0;
        CHECK(sscanf(m->data, "{\"c\":%d,\"k\":%d,\"sum\":%u", &cc, &k, &h) == 3 && m->len == strlen(m->data) && m->data[m->len - 1] == '}', "response-mangled", "connection %d got %.60s", c, m->data);
        CHECK(cc == c, "wrong-connection", "connection %d got the response to a message of connection %d", c, cc);
        int want = 0, seen = 0;
        for (; want < e->nsent; want++) if (!e->m[want].notify && seen++ == e->nans) break;
        if (!oom) CHECK(k == want, "response-order", "connection %d got the response to message %d instead of %d", c, k, want);
        CHECK(k < e->nsent && h == sum(e->m[k].d, e->m[k].n), "response-mangled", "connection %d message %d: wrong response", c, k);
        answered++;
    }
}
static int due(struct pe *e) { int n = 0; for (int i = 0; i < e->nsent; i++) n += !e->m[i].notify; return n; }
static int idle(void *a) { struct pe *e = a; return e->p->gone || (e->p->handled == e->p->queued); }
static int all_idle(void *a) { (void)a; for (int i = 0; i < np; i++) if (!P[i].p->gone && P[i].p->handled != P[i].p->queued) return 0; return 1; }
static int upgraded(void *a) { struct pe *e = a; return e->p->gone || e->p->established || e->p->refused; }
static int gone(void *a) { struct pe *e = a; return e->p->gone; }

static int nopen(void) { int n = 0; for (int i = 0; i < np; i++) n += P[i].p->established && !P[i].p->gone; return n; }

static void send_msg(int c) {
    struct pe *e = &P[c];
    if (e->nsent >= NM) return;
    int k = e->nsent;
    u32 n;
    switch (W(6)) {
    case 0: n = WR(0, 200); break;
    case 1: n = 4096 * WR(1, 4) - 40 + W(80); big++; break;
    case 2: n = WR(200, 20000); big++; break;
    default: n = WR(0, 60);
    }
    char *d = simh_malloc(n + 200);
    int l = sprintf(d, "{\"c\":%d,\"k\":%d,\"pad\":\"", c, k);
    for (u32 i = 0; i < n; i++) d[l++] = text_byte(i, n, (u32)k, (char)('a' + (i * 7 + (u32)k * 3 + (u32)c) % 26));
    d[l++] = '"';
    d[l++] = '}';
    d[l] = 0;
    e->m[k].d = d;
    e->m[k].n = (size_t)l;
    e->m[k].notify = W(5) == 1;
    e->nsent++;
    size_t o = 0;
    int frag = (int)W(4);
    while (o < (size_t)l) {
        size_t m = (size_t)l - o, lim = 4096;
        if (frag == 1) m = 1 + W(300);
        else if (frag == 2) m = 4090 + W(7);
        else if (frag == 3 && W(3) == 1) { lp_send(e->p, "", 0, 0); sim_probe("empty-fragment"); }
        if (m > lim) m = lim;
        if (m > (size_t)l - o) m = (size_t)l - o;
        int last = o + m == (size_t)l;
        if (last && frag == 3 && W(2)) { lp_send(e->p, d + o, m, 0); lp_send(e->p, "", 0, 1); }
        else lp_send(e->p, d + o, m, last);
        o += m;
        if (W(6) == 1) sim_sleep_ns(WR(1, 40) * MS);
        if (!filling && W(400) == 1) { e->cut = 1; e->self_closed = 1; lp_close(e->p); return; }   /* closes within a message */
    }
}
static void check_quiet(int c) {
    struct pe *e = &P[c];
    look(c);
    if (e->p->gone) {
        if (!e->self_closed && !stopping && !oom && !e->p->broken && !resets)
            CHECK(0, "closed-by-server", "connection %d was closed by the server after %d messages", c, e->nsent);
        return;
    }
    if (e->cut || e->self_closed || stopping) return;
    CHECK(e->ngot == e->nsent, "message-lost", "connection %d: %d of %d messages reached the handler", c, e->ngot, e->nsent);
    if (!oom && !e->p->w->broken) CHECK(e->nans == due(e), "response-lost", "connection %d: %d of %d responses", c, e->nans, due(e));
}
static void client(void *a) {
    (void)a;
    int rounds = (int)WR(1, 4);
    while (rounds-- && !stopping && np < NP) {
        int c = np;
        struct pe *e = &P[c];
        memset(e, 0, sizeof *e);
        e->p = lp_connect();
        np++;
        lp_upgrade(e->p);
        sim_wait_until(upgraded, e, 60 * SEC);
        if (stopping) return;
        CHECK(e->p->established || e->p->refused || e->p->gone, "not-accepted", "a connection is neither accepted nor refused after 60 s");
        if (!e->p->established) {
            sim_wait_until(gone, e, 60 * SEC);
            e->quiet = 1;
            sim_sleep_ns(WR(1, 400) * MS);
            continue;
        }
        e->opened = 1;
        if (c >= maxc) reused = 1;
        int nmsg = (int)WR(0, 8);
        for (int i = 0; i < nmsg && !e->p->gone && !e->self_closed && !stopping; i++) {
            send_msg(c);
            if (W(2)) { sim_wait_until(idle, e, 200 * SEC); if (!stopping) check_quiet(c); }
            if (W(3) == 1) sim_sleep_ns(WR(1, 300) * MS);
            if (W(8) == 1) lp_pong(e->p);
        }
        if (!stopping && !e->self_closed) {
            CHECK(sim_wait_until(idle, e, 200 * SEC) || stopping, "not-served", "connection %d: what it sent is not handled within 200 s", c);
            if (!stopping) check_quiet(c);
        }
        if (e->self_closed) continue;
        int how = (int)W(4);
        if (how == 0) continue;              /* stays open */
        if (how == 1 && nfault) { e->self_closed = 1; lp_drop(e->p); }
        else { e->self_closed = 1; lp_close(e->p); }
        sim_wait_until(gone, e, 60 * SEC);
    }
}
static void capacity(mcp_transport_t *t) {
    /* nothing is on its way: the number of open connections is known */
    u32 act = 0, tot = 0, rej = 0;
    if (!sim_wait_until(all_idle, 0, 300 * SEC)) CHECK(0, "not-served", "what the connections sent is not handled within 300 s");
    if (stopping) return;
    mcp_transport_websocket_server_get_stats(t, &act, 0, &tot, &rej, 0);
    CHECK((int)act == nopen(), "count-wrong", "the server counts %u clients, %d are connected", act, nopen());
    int base = nopen();
    filling = 1;
    while (np < NP - 2 && nopen() < maxc) {
        struct pe *e = &P[np];
        memset(e, 0, sizeof *e);
        e->p = lp_connect();
        np++;
        lp_upgrade(e->p);
        sim_wait_until(upgraded, e, 60 * SEC);
        CHECK(e->p->established, "refused-below-limit", "a connection is refused while %d of %d are connected", nopen(), maxc);
        e->opened = 1;
        if (W(2)) send_msg(np - 1);
    }
    if (np < NP - 2) {
        struct pe *e = &P[np];
        memset(e, 0, sizeof *e);
        e->p = lp_connect();
        np++;
        lp_upgrade(e->p);
        sim_wait_until(upgraded, e, 60 * SEC);
        CHECK(!e->p->established, "accepted-above-limit", "a connection is accepted while %d of %d are connected", nopen() - 1, maxc);
        e->quiet = 1;
    }
    sim_wait_until(all_idle, 0, 300 * SEC);
    for (int i = 0; i < np; i++) if (P[i].opened) check_quiet(i);
    sim_probe(base ? "filled-up" : "filled-from-empty");
    filling = 0;
}
static void stopper(void *a) {
    mcp_transport_t *t = a;
    stopping = 1;
    mcp_transport_stop(t);
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(9000 * SEC, 6000000);
    lws_fake_strict = 1;
    nfault = sim_configure(F(DK_STALL) | F(DK_SPURIOUS) | F(DK_OOM) | F(DK_RESET) | F(DK_CLOCK) | F(DK_EINTR));
    resets = sim_get_rate(DK_RESET) != 0;
    oom = sim_get_rate(DK_OOM) != 0;
    sim_oom_scope(0);
    np = up = stopping = answered = big = reused = filling = 0;
    maxc = (int)(C(5) == 1 ? CR(33, 40) : CR(1, 7));
    lws_fake_idle_ms = C(3) == 1 ? CR(1, 3000) : 0;
    mcp_websocket_config_t k = { .host = "127.0.0.1", .port = 9000, .path = "/ws" };
    k.max_clients = (u32)maxc;
    k.segment_count = C(2) ? CR(1, 8) : 0;
    k.buffer_pool_size = CR(1, 4);
    k.buffer_size = C(3) ? 0 : C(2) ? 4096 : C(2) ? 8192 : 1000;
    u64 seq0 = sim_alloc_seq();
    mcp_transport_t *t = mcp_transport_websocket_server_create(&k);
    CHECK(t, "create-failed", "the transport cannot be created");
    int lives = C(4) == 1 ? 2 : 1;
    while (lives--) {
        up = 1;
        stopping = 0;
        sim_nofault_begin();
        int r = mcp_transport_start(t, cb, 0, 0);
        sim_nofault_end();
        CHECK(!r, "start-failed", "the transport cannot be started");
        sim_oom_scope(1);
        int n = (int)WR(1, 6), tid[6];
        for (int i = 0; i < n; i++) tid[i] = sim_spawn(client, 0);
        if (W(4) == 1) {
            sim_sleep_ns(WR(1, 1500) * MS);
            stopping = 1;
            sim_probe("stopped-in-use");
        } else {
            for (int i = 0; i < n; i++) sim_join(tid[i]);
            sim_oom_scope(0);
            sim_faults_off();
            if (W(2)) for (int i = 0; i < np; i++) if (P[i].opened && !P[i].p->gone && !P[i].self_closed && W(2)) { P[i].self_closed = 1; lp_close(P[i].p); }
            capacity(t);
            if (W(3) == 1) {                 /* any of the slots becomes free and is used again */
                for (int i = 0; i < np; i++) if (P[i].opened && !P[i].p->gone && !P[i].self_closed && W(2)) { P[i].self_closed = 1; lp_close(P[i].p); sim_wait_until(gone, &P[i], 60 * SEC); }
                capacity(t);
                sim_probe("filled-again");
            }
            n = 0;
        }
        sim_oom_scope(0);
        int s = sim_spawn(stopper, t);
        CHECK(sim_join_for(s, 300 * SEC), "stop-hangs", "stopping the transport does not end");
        up = 0;
        for (int i = 0; i < n; i++) CHECK(sim_join_for(tid[i], 900 * SEC), "client-stuck", "a client still waits after the transport was stopped");
        for (int i = 0; i < np; i++) { look(i); CHECK(P[i].p->gone, "left-open", "connection %d survives the transport", i); }
        for (int i = 0; i < np; i++) for (int j = 0; j < P[i].nsent; j++) sim_free(P[i].m[j].d);
        memset(P, 0, sizeof P);
        np = 0;
        lp_free_all();
        CHECK(!lws_fake_ctx_live, "context-left", "the library context survives the transport");
    }
    mcp_transport_destroy(t);
    u32 leaks = sim_heap_leaks(seq0);
    CHECK(!leaks, "leak", "%u blocks of memory are left after the transport was destroyed", leaks);
    if (answered) sim_mark_nontrivial();
    if (big && answered) sim_probe("big-message");
    if (reused) sim_probe("slot-reused");
}
HARNESS(ws_server, "P26", "websocket-server", run,
        "WebSocket server transport: client slots, receive buffers and their pool, message assembly, responses, event thread, start and stop",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation",
        "a response came back on the connection whose message it answers; states counted by the hash of the sequence of synchronisation operations and thread switches", 1)
MEMORY_HARNESS(ws_server_mem, "memory-websocket-server", run,
        "WebSocket server transport: client slots, receive buffers and their pool, message assembly, responses, event thread, start and stop",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation", 1)
