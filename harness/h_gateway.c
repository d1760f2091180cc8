/* P20: a server in gateway mode forwarding requests to backends over TCP. */
#include "sim.h"
#include "mcp_server.h"
#include "mcp_server_core.h"
#include "mcp_gateway.h"
#include "mcp_gateway_pool.h"
#include "mcp_transport.h"
#include "internal/transport_internal.h"
#include "mcp_arena.h"
#include "mcp_log.h"
#include "jmini.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>

#define PORT0 7400
#define MAXC 5           /* connections the gateway keeps per backend */
#define NTOK 600
#define NCONN 400
enum { OK_, ERR_, LATE_, NEVER_, CUT_, MEET_ };
static mcp_server_t *srv;
static mcp_transport_t tr;
static mcp_transport_message_callback_t cb;
static void *cb_ud;
static struct tok { int be, plan, execs, answered, returned, code, res, pad, rpad; u64 recv_at; char to[100]; } T[NTOK];
static int ntok, nb, calm, over, want_up[2], quit, nt, inflight, lost, only, met, alone;
static u32 tmo;
static struct conn { int h, be, kill, last, dead; } S[NCONN];
static int nsc;
static u64 maxlat;

/* names of backend i: some are the beginning of the other backend's */
static const char *name_of(int i, int v, int res) {
    static char b[100];
    if (v == 0) snprintf(b, sizeof b, res ? "r%d:" : "t%d", i);
    else if (v == 1) snprintf(b, sizeof b, res ? "some-scheme://host.example.com/a/rather/long/path/below/which/things/are/%d/" : "a-tool-with-a-rather-long-name-that-differs-from-others-at-its-end-only-%d", i);
    else snprintf(b, sizeof b, res ? "x%.*s/" : "x%.*s", i, "x");
    return b;
}
static void pad_put(char *b, int k, int n) { for (int i = 0; i < n; i++) b[i] = (char)('a' + (k + i + i / 26) % 26); b[n] = 0; }
static int pad_ok(const char *b, int k, int n) {
    if (!b) return n == 0;
    for (int i = 0; i < n; i++) if (b[i] != (char)('a' + (k + i + i / 26) % 26)) return 0;
    return b[n] == 0;
}
static int pad_len(void) { return W(6) != 5 ? 0 : (int)WR(1, W(3) == 2 ? 9000 : 700); }
/* ---- backends ---------------------------------------------------------------- */
static void answer(struct conn *c, const char *txt) {
    u32 l = (u32)strlen(txt), n = htonl(l);
    char *f = malloc(l + 4);
    memcpy(f, &n, 4); memcpy(f + 4, txt, l);
    u32 o = 0;
    while (o < l + 4 && !c->kill && !over && !c->dead) {
        u32 m = W(3) ? l + 4 - o : 1 + W(l + 4 - o);
        int r = hnet_send_for(c->h, f + o, m, 200 * MS);
        if (c->dead || r < -2) break;
        if (r <= 0 && hnet_eof(c->h)) break;
        o += r > 0 ? (u32)r : 0;
    }
    free(f);
}
struct later { struct conn *c; int tok; u64 id; };
static void respond(struct conn *c, int k, u64 id) {
    char *b = malloc(10000), *pad = malloc(10000);
    pad_put(pad, k + 1, T[k].rpad);
    if (T[k].plan == ERR_) snprintf(b, 10000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"E%d\"}}", (unsigned long long)id, T[k].code, k);
    else snprintf(b, 10000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"be\":%d,\"pad\":\"%s\",\"tok\":\"tok%d\"}}", (unsigned long long)id, c->be, pad, k);
    T[k].answered = 1;
    answer(c, b);
    free(b); free(pad);
}
static void late(void *a) {
    struct later *l = a;
    u64 d = tmo * MS / 2 + WR(0, tmo * 2) * MS;
    sim_sleep_ns(d);
    if (!over && !l->c->kill && !l->c->dead) { respond(l->c, l->tok, l->id); if (T[l->tok].returned) sim_probe("late response"); }
    free(l);
}
static int p_met(void *a) { (void)a; return met >= MAXC; }
static void meet(void *a) {
    struct later *l = a;
    met++;
    if (!sim_wait_until(p_met, 0, tmo * MS / 2) && !alone) alone = met;
    if (!over && !l->c->kill && !l->c->dead) respond(l->c, l->tok, l->id);
    free(l);
}
static int tids[NTOK + NCONN], ntids;
static void take(struct conn *c, char *m) {
    J *j = j_parse(m);
    CHECK(j, "bad-request", "a backend got a message that is not JSON: %.60s", m);
    const char *me = j_gets(j, "method");
    J *id = j_get(j, "id");
    CHECK(me && id && id->t == 'd', "bad-request", "a backend got a message that is no request: %.80s", m);
    u64 i = (u64)id->n;
    if (!strcmp(me, "ping")) {
        if (i) { char b[100]; snprintf(b, sizeof b, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"message\":\"pong\"}}", (unsigned long long)i); answer(c, b); sim_probe("health check"); }
        j_free(j);
        return;
    }
    char *t = strstr(m, "tok");
    CHECK(t, "bad-request", "a backend got a request without its parameters: %.100s", m);
    int k = atoi(t + 3);
    CHECK(k >= 0 && k < ntok, "bad-request", "a backend got token %d", k);
    struct tok *q = &T[k];
    sim_log("backend %d conn %d: token %d id %llu", c->be, (int)(c - S), k, (unsigned long long)i);
    CHECK(q->be == c->be, "wrong-backend", "a request for backend %d arrived at backend %d", q->be, c->be);
    CHECK(++q->execs == 1, "sent-twice", "a request arrived %d times", q->execs);
    q->recv_at = sim_now();
    J *par = j_get(j, "params");
    const char *who = par ? j_gets(par, q->res ? "uri" : "name") : 0;
    CHECK(!strcmp(me, q->res ? "read_resource" : "call_tool") && who && (q->res ? !strncmp(who, q->to, strlen(q->to)) : !strcmp(who, q->to)), "bad-request", "a backend got another request than the one for %s: %.100s", q->to, m);
    if (!q->res) { J *ar = j_get(par, "arguments"); CHECK(ar && pad_ok(j_gets(ar, "pad"), k, q->pad), "bad-request", "a backend got a request with other arguments"); }
    if (calm && c->last >= 0) {
        struct tok *o = &T[c->last];
        CHECK(o->answered || o->returned || sim_now() + maxlat + 20 * MS + sim_injected_since(o->recv_at - maxlat) >= o->recv_at + tmo * MS, "shared", "a connection was used for a request while another one was waiting for its response on it");
    }
    c->last = k;
    j_free(j);
    if (W(3) == 1) sim_sleep_ns(WR(1, 60) * MS);
    switch (q->plan) {
    case NEVER_: return;
    case CUT_: c->kill = 1 + (int)W(2); return;
    case MEET_:
    case LATE_: {
        struct later *l = malloc(sizeof *l);
        *l = (struct later){c, k, i};
        tids[ntids++] = sim_spawn(q->plan == MEET_ ? meet : late, l);
        return; }
    default: respond(c, k, i);
    }
}
static void srv_conn(void *a) {
    struct conn *c = a;
    char *b = malloc(20000);
    u32 have = 0;
    while (!over && !c->kill) {
        long r = hnet_recv(c->h, b + have, 19000 - have, 50 * MS);
        if (r == -2) continue;
        if (r <= 0) break;
        have += (u32)r;
        while (have >= 4 && !c->kill) {
            u32 l; memcpy(&l, b, 4); l = ntohl(l);
            CHECK(l > 0 && l < 15000, "bad-request", "a backend got a frame with length %u", l);
            if (have < l + 4) break;
            char *m = malloc(l + 1);
            memcpy(m, b + 4, l); m[l] = 0;
            memmove(b, b + 4 + l, have - 4 - l);
            have -= 4 + l;
            take(c, m);
            free(m);
        }
    }
    free(b);
    c->dead = 1;
    if (c->kill == 2) hnet_reset(c->h); else hnet_close(c->h);
}
static void acceptor(void *a) {
    int be = (int)(long)a, l = -1;
    while (!over) {
        if (want_up[be] && l < 0) l = hnet_listen(PORT0 + be);
        if (!want_up[be] && l >= 0) { hnet_close(l); l = -1; }
        if (l < 0) { sim_sleep_ns(10 * MS); continue; }
        int h = hnet_accept(l, 25 * MS);
        if (h < 0) continue;
        if (nsc >= NCONN) { hnet_close(h); sim_inconclusive("too many connections"); }
        struct conn *c = &S[nsc++];
        *c = (struct conn){.h = h, .be = be, .last = -1};
        tids[ntids++] = sim_spawn(srv_conn, c);
    }
    if (l >= 0) hnet_close(l);
}
/* ---- gateway ------------------------------------------------------------------- */
static int tr_start(mcp_transport_t *t, mcp_transport_message_callback_t c, void *ud, mcp_transport_error_callback_t e) { (void)t; (void)e; cb = c; cb_ud = ud; return 0; }
static int tr_stop(mcp_transport_t *t) { (void)t; return 0; }
static int local_runs;
static mcp_error_code_t on_tool(mcp_server_t *s, const char *name, const mcp_json_t *params, void *ud, mcp_content_item_t ***content, size_t *count, bool *is_error, char **emsg) {
    (void)s; (void)params; (void)ud; (void)is_error; (void)emsg;
    CHECK(!strcmp(name, "here"), "wrong-backend", "tool %s was run by the gateway itself", name);
    local_runs++;
    *content = malloc(sizeof **content); *count = 1;
    (*content)[0] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, 0, "local", 6);
    return MCP_ERROR_NONE;
}
static void watch(void) {
    CHECK(net_open_sockets() <= MAXC * nb, "over-maximum", "%d connections are open, the maximum is %d", net_open_sockets(), MAXC * nb);
}
/* 1 when the request was answered by its backend */
static int one_request(int plan) {
    if (ntok >= NTOK) return 0;
    int k = ntok++, be = only ? 0 : (int)W((u32)nb), res = (int)W(3) == 1, bare = 0;
    struct tok *q = &T[k];
    *q = (struct tok){.be = be, .plan = plan, .code = -32000 - (int)W(90), .res = res, .pad = res ? 0 : pad_len(), .rpad = pad_len()};
    strcpy(q->to, name_of(be, (int)W(3), res));
    u64 id = WR(1, 6);
    char *m = malloc(10000), *pad = malloc(10000);
    pad_put(pad, k, q->pad);
    if (plan == OK_ && W(8) == 1 && !quit) {        /* handled by the gateway itself */
        bare = 1;
        snprintf(m, 10000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"call_tool\",\"params\":{\"name\":\"here\",\"arguments\":{\"a\":\"x\"}}}", (unsigned long long)id);
    } else if (res) snprintf(m, 10000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"read_resource\",\"params\":{\"uri\":\"%stok%d\"}}", (unsigned long long)id, q->to, k);
    else snprintf(m, 10000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"call_tool\",\"params\":{\"name\":\"%s\",\"arguments\":{\"a\":\"tok%d\",\"pad\":\"%s\"}}}", (unsigned long long)id, q->to, k, pad);
    watch();
    u64 t0 = sim_now();
    int err = 0;
    inflight++;
    sim_log("request token %d id %llu backend %d plan %d", k, (unsigned long long)id, be, plan);
    char *r = cb(cb_ud, m, strlen(m), &err);
    inflight--;
    u64 d = sim_now() - t0;
    q->returned = 1;
    sim_log("token %d -> %.120s", k, r ? r : "(none)");
    watch();
    CHECK(r, "unanswered", "a forwarded request got no response at all");
    J *j = j_parse(r);
    CHECK(j && j->t == 'o', "bad-response", "the gateway's response is no JSON object: %.80s", r);
    J *rid = j_get(j, "id"), *res_ = j_get(j, "result"), *er = j_get(j, "error");
    CHECK(rid && rid->t == 'd' && (u64)rid->n == id, "wrong-id", "request %llu was answered with %.100s", (unsigned long long)id, r);
    CHECK(!res_ != !er, "bad-response", "the gateway's response has both or neither of result and error: %.100s", r);
    int ok = 0;
    if (bare) { CHECK(res_, "local", "a request for the gateway itself failed: %.80s", r); ok = 1; }
    else if (res_) {
        char want[24];
        snprintf(want, sizeof want, "tok%d", k);
        const char *g = j_gets(res_, "tok");
        J *gb = j_get(res_, "be");
        CHECK(g && !strcmp(g, want) && gb && (int)gb->n == be, "wrong-result", "the request with token %d for backend %d was answered with %.120s", k, be, r);
        CHECK(pad_ok(j_gets(res_, "pad"), k + 1, q->rpad), "wrong-result", "the result for token %d was changed on its way", k);
        CHECK(q->execs == 1 && q->answered, "wrong-result", "a request was answered that its backend did not answer");
        CHECK(plan != ERR_ && plan != NEVER_ && plan != CUT_, "wrong-result", "a request its backend did not answer so got a result");
        ok = 1;
        sim_probe("forwarded");
        sim_mark_nontrivial();
    } else {
        J *cd = j_get(er, "code");
        CHECK(cd && cd->t == 'd', "bad-response", "error without a code: %.100s", r);
        if (plan == ERR_ && q->answered && (int)cd->n == q->code) {
            char want[24];
            snprintf(want, sizeof want, "E%d", k);
            CHECK(j_gets(er, "message") && !strcmp(j_gets(er, "message"), want), "wrong-result", "the error for token %d has the message %.60s", k, j_gets(er, "message") ? j_gets(er, "message") : "(none)");
            ok = 1; sim_probe("backend error"); }
        else if ((calm || !lost) && (plan == OK_ || plan == ERR_) && sim_injected_since(t0) < tmo * MS / 4) sim_fail("refused", "token %d for backend %d failed although the backend answers: %.100s", k, be, r);
    }
    /* connecting, perhaps for the pool too, the call and a health check */
    if (nt <= MAXC) CHECK(d <= 16 * SEC + (u64)tmo * 2 * MS + 4 * maxlat + sim_injected_since(t0), "slow", "a forwarded request took %.1f s", (double)d / 1e9);
    sim_state((u64)inflight << 8 | (u64)(net_open_sockets()) << 3 | (u64)ok << 2 | (u64)calm);
    j_free(j);
    free(r); free(m); free(pad);
    return ok;
}
static void caller(void *a) {
    (void)a;
    for (int n = (int)WR(2, 14); n > 0 && !quit; n--) {
        u32 p = W(12);
        one_request(p == 1 ? ERR_ : p == 2 ? LATE_ : p == 3 ? NEVER_ : p == 4 && !calm ? CUT_ : OK_);
        if (W(3) == 1) sim_sleep_ns(WR(1, 300) * MS);
        if (W(25) == 1) sim_sleep_ns(WR(50, 80) * SEC);     /* long enough for idle connections to be given up */
    }
}
static void meeting(void *a) { (void)a; one_request(MEET_); }
static void chaos(void *a) {
    (void)a;
    while (!quit) {
        sim_sleep_ns(WR(10, 2000) * MS);
        switch (W(4)) {
        case 0: if (nsc) S[W((u32)nsc)].kill = 1 + (int)W(2); break;
        case 1: { int b = (int)W((u32)nb); want_up[b] = 0; sim_sleep_ns(WR(10, 8000) * MS); want_up[b] = 1; break; }
        case 2: if (sim_get_rate(DK_PARTITION)) { net_partition(1); sim_sleep_ns(WR(10, 4000) * MS); net_partition(0); } break;
        default: break;
        }
    }
}
static void run(void) {
    sim_limit(20000 * SEC, 8000000);
    memset(T, 0, sizeof T); memset(S, 0, sizeof S);
    only = met = alone = ntok = nsc = ntids = over = quit = inflight = local_runs = 0; cb = 0;
    calm = (int)C(2);
    sim_configure(calm ? F(DK_SPURIOUS) | F(DK_STALL) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR)
                       : F(DK_SPURIOUS) | F(DK_STALL) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_PARTITION) | F(DK_THREAD));
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    lost = !calm;
    nb = (int)CR(1, 2);
    nt = (int)CR(1, 9);
    tmo = (u32[]){300, 1000, 3000}[C(3)];
    maxlat = 4 * MS + (sim_get_rate(DK_DELAY) ? 2 * SEC : 0);
    static char cfgtxt[3000];
    char *o = cfgtxt;
    o += sprintf(o, "[");
    for (int i = 0; i < nb; i++) {
        o += sprintf(o, "%s{\"name\":\"be%d\",\"address\":\"%s127.0.0.1:%d\",\"timeout_ms\":%u,\"routing\":{\"tool_names\":[", i ? "," : "", i, i ? "" : "tcp://", PORT0 + i, tmo);
        for (int v = 0; v < 3; v++) o += sprintf(o, "%s\"%s\"", v ? "," : "", name_of(i, v, 0));
        o += sprintf(o, "],\"resource_prefixes\":[");
        for (int v = 0; v < 3; v++) o += sprintf(o, "%s\"%s\"", v ? "," : "", name_of(i, v, 1));
        o += sprintf(o, "]}}");
    }
    sprintf(o, "]");
    disk_put("/gw.json", cfgtxt, strlen(cfgtxt));
    memset(&tr, 0, sizeof tr);
    tr.type = MCP_TRANSPORT_TYPE_SERVER;
    tr.server.start = tr_start; tr.server.stop = tr_stop;
    mcp_server_config_t cfg = {.name = "gw", .version = "1", .thread_pool_size = 1, .task_queue_size = 4, .cache_capacity = 4, .graceful_shutdown_timeout_ms = 1000};
    mcp_server_capabilities_t cap = {.resources_supported = true, .tools_supported = true};
    sim_nofault_begin();
    srv = mcp_server_create(&cfg, &cap);
    CHECK(srv, "setup", "the gateway could not be created");
    mcp_server_set_tool_handler(srv, on_tool, 0);
    if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE)) sim_fail("setup", "no arena");
    CHECK(load_gateway_config("/gw.json", &srv->backends, &srv->backend_count) == MCP_ERROR_NONE && (int)srv->backend_count == nb, "setup", "the configuration could not be loaded");
    srv->is_gateway_mode = true;
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the gateway could not be started");
    sim_nofault_end();
    int acc[2], t[10], ch = -1;
    for (int i = 0; i < nb; i++) { want_up[i] = 1; acc[i] = sim_spawn(acceptor, (void *)(long)i); }
    sim_sleep_ns(100 * MS);
    for (int i = 0; i < nt; i++) t[i] = sim_spawn(caller, 0);
    if (!calm) ch = sim_spawn(chaos, 0);
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    quit = 1;
    if (ch >= 0) sim_join(ch);
    sim_faults_off();
    net_partition(0);
    for (int i = 0; i < nb; i++) want_up[i] = 1;
    /* with the backends back, requests succeed again */
    int good = 0;
    for (int i = 0; i < 100 && good < 5; i++) { if (one_request(OK_)) good++; else { good = 0; sim_sleep_ns(SEC); } }
    CHECK(good >= 5 || ntok >= NTOK, "no-recovery", "requests still fail a minute after the backends are back");
    /* idle connections given up, once or again and again, and all connections can be used at once again */
    if (C(4) == 1 && good >= 5 && ntok < NTOK - 30) {
        for (int i = (int)CR(0, 7); i > 0; i--) {
            sim_sleep_ns(CR(55, 75) * SEC);
            CHECK(one_request(OK_), "no-recovery", "a request fails after a pause");
        }
        sim_sleep_ns(CR(0, 1) * 70 * SEC + SEC);
        only = 1;
        for (int i = 0; i < MAXC; i++) t[i] = sim_spawn(meeting, 0);
        for (int i = 0; i < MAXC; i++) sim_join(t[i]);
        CHECK(met >= MAXC && !alone, "capacity-lost", "%d requests at once, only %d of them got a connection", MAXC, alone ? alone : met);
        sim_probe("all connections at once");
    }
    u64 s0 = sim_now();
    mcp_server_stop(srv);
    mcp_server_destroy(srv);
    CHECK(sim_now() - s0 <= 10 * SEC + sim_injected_since(s0), "stop-slow", "stopping the gateway took %.1f s", (double)(sim_now() - s0) / 1e9);
    CHECK(net_open_sockets() == 0, "left-open", "%d connections are open after the gateway was destroyed", net_open_sockets());
    over = 1;
    for (int i = 0; i < nb; i++) sim_join(acc[i]);
    for (int i = 0; i < ntids; i++) sim_join(tids[i]);
    mcp_arena_destroy_current_thread();
}
HARNESS(gateway, "P20", "gateway-forwarding", run, "gateway pool, routing and forwarding, server dispatch, client library, TCP client transport, JSON",
        "backends (scripted), network, clock, scheduler", "a run counts as non-trivial when a backend's result was returned for a forwarded request", 1)
MEMORY_HARNESS(gateway_mem, "memory-gateway-forwarding", run,
        "gateway pool, routing and forwarding, server dispatch, client library, TCP client transport, JSON",
        "backends (scripted), network, clock, scheduler", 2)
