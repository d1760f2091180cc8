/* P23: the client library talking to the server over TCP, both real. */
#include "sim.h"
#include "mcp_server.h"
#include "mcp_client.h"
#include "mcp_transport.h"
#include "mcp_tcp_transport.h"
#include "mcp_tcp_client_transport.h"
#include "mcp_json.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define PORT 7600
#define NTOK 2000
#define NCL 3
enum { ECHO, FAIL, ISERR, MULTI, SLOW };
static const char *const tool[] = {"echo", "fail", "iserr", "multi", "slow"};
static struct tok { int kind, runs, read, odd; u32 len; } T[NTOK];
static int ntok, calm, quit, nover, nlist, server_up, stopping_server, in_handler, crowded;
static u32 tmo, idle;
static mcp_server_t *srv;
static mcp_transport_t *str;
static mcp_client_t *cl[NCL];
static u64 maxlat, breaks;

static u32 text(char *b, int k, int part) {
    int h = snprintf(b, 40, "tok%d.%d:", k, part);
    u32 o = (u32)h, e = o + T[k].len;
    for (u32 i = 0; o < e; i++) {
        /* odd texts have pieces of several bytes, very odd ones such that must be escaped */
        static const char *odd[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "%s", "\"", "\\", "\n", "\t", "/", "\r"};
        int x = k * 7 + part + (int)(i * 3 + (i >> 6));
        if (T[k].odd && x % 5 == 0) { const char *p = odd[x / 5 % (T[k].odd == 1 ? 5 : 11)]; memcpy(b + o, p, strlen(p)); o += (u32)strlen(p); }
        else b[o++] = (char)('a' + x % 26);
    }
    b[o] = 0;
    return o;
}
static void quote(char *o, const char *s) {
    for (; *s; s++) switch (*s) {
        case '"': case '\\': *o++ = '\\'; *o++ = *s; break;
        case '\n': *o++ = '\\'; *o++ = 'n'; break;
        case '\r': *o++ = '\\'; *o++ = 'r'; break;
        case '\t': *o++ = '\\'; *o++ = 't'; break;
        default: *o++ = *s;
    }
    *o = 0;
}
/* ---- server side --------------------------------------------------------------- */
static mcp_error_code_t on_tool(mcp_server_t *s, const char *name, const mcp_json_t *params, void *ud, mcp_content_item_t ***content, size_t *count, bool *is_error, char **emsg) {
    const char *a = 0;
    (void)ud;
    CHECK(s == srv, "foreign-server", "a handler of a destroyed server ran");
    mcp_json_get_string(mcp_json_object_get_property(params, "a"), &a);
    CHECK(a && !strncmp(a, "tok", 3), "wrong-args", "tool %s was called with other arguments than any client gave", name);
    int k = atoi(a + 3);
    char *e = malloc(12000);
    CHECK(k >= 0 && k < ntok && !T[k].read, "wrong-args", "tool %s was called with token %d", name, k);
    text(e, k, 0);
    CHECK(!strcmp(a, e), "wrong-args", "the argument of call %d arrived altered", k);
    CHECK(!strcmp(name, tool[T[k].kind]), "wrong-args", "call %d arrived as tool %s", k, name);
    CHECK(++T[k].runs == 1, "run-twice", "call %d was executed %d times", k, T[k].runs);
    sim_log("server runs call %d", k);
    in_handler++;
    if (T[k].kind == SLOW) sim_sleep_ns(tmo * WR(50, 250) / 100 * MS);
    else if (W(4) == 1) sim_sleep_ns(WR(1, 15) * MS);
    in_handler--;
    int n = T[k].kind == MULTI ? 3 : 1;
    mcp_error_code_t rc = MCP_ERROR_NONE;
    *is_error = T[k].kind == ISERR;
    if (T[k].kind == FAIL) { *emsg = malloc(20); strcpy(*emsg, "no luck"); rc = (mcp_error_code_t)-32050; }
    else {
        *content = calloc((size_t)n, sizeof **content);
        *count = (size_t)n;
        for (int i = 0; i < n; i++) { u32 l = text(e, k, i + 1); (*content)[i] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, 0, e, l + 1); }
    }
    free(e);
    return rc;
}
static mcp_error_code_t on_res(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***content, size_t *count, char **emsg) {
    (void)ud; (void)emsg;
    CHECK(s == srv, "foreign-server", "a handler of a destroyed server ran");
    CHECK(!strncmp(uri, "res://tok", 9), "wrong-args", "resource %.60s was read, which no client asked for", uri);
    int k = atoi(uri + 9);
    CHECK(k >= 0 && k < ntok && T[k].read, "wrong-args", "resource %.60s was read, which no client asked for", uri);
    CHECK(++T[k].runs == 1, "run-twice", "read %d was executed %d times", k, T[k].runs);
    if (W(4) == 1) sim_sleep_ns(WR(1, 15) * MS);
    char *e = malloc(12000);
    u32 l = text(e, k, 1);
    *content = calloc(1, sizeof **content);
    *count = 1;
    (*content)[0] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, "text/plain", e, l + 1);
    free(e);
    return MCP_ERROR_NONE;
}
static void server_start(void) {
    mcp_server_config_t cfg = {.name = "e2e", .version = "1", .thread_pool_size = 2, .task_queue_size = 8, .cache_capacity = 8, .graceful_shutdown_timeout_ms = 1000};
    mcp_server_capabilities_t cap = {.resources_supported = true, .tools_supported = true};
    sim_nofault_begin();
    srv = mcp_server_create(&cfg, &cap);
    str = mcp_transport_tcp_create("127.0.0.1", PORT, idle);
    CHECK(srv && str, "setup", "the server could not be created");
    mcp_server_set_tool_handler(srv, on_tool, 0);
    mcp_server_set_resource_handler(srv, on_res, 0);
    for (int i = 0; i < nlist; i++) {
        char n[20];
        snprintf(n, sizeof n, "tool-%d", i);
        mcp_tool_t *t = mcp_tool_create(n, "about it");
        CHECK(t && !mcp_server_add_tool(srv, t), "setup", "a tool could not be added");
        mcp_tool_free(t);
    }
    CHECK(mcp_server_start(srv, str) == 0, "setup", "the server could not be started");
    sim_nofault_end();
    server_up = 1;
}
static void server_stop(void) {
    server_up = 0;
    breaks++;
    u64 a = sim_now();
    int r = mcp_server_stop(srv);
    CHECK(r == 0, "stop", "stopping the server failed");
    u64 lim = 8 * SEC + (u64)tmo * 3 * MS + 4 * maxlat + sim_injected_since(a);
    CHECK(sim_now() - a <= lim, "stop-slow", "stopping the server took %.1f s", (double)(sim_now() - a) / SEC);
    CHECK(!in_handler, "stop", "a handler is running after the server was stopped");
    mcp_server_destroy(srv);
    mcp_transport_destroy(str);
    srv = 0;
    sim_probe("server stopped");
}
/* ---- client side ----------------------------------------------------------------- */
static int newtok(int kind, int rd) {
    if (ntok >= NTOK) return -1;
    u32 l = W(3) ? W(40) : W(3) ? W(400) : W(7000);
    T[ntok] = (struct tok){.kind = kind, .read = rd, .len = l};
    return ntok++;
}
static int same(mcp_content_item_t **co, size_t n, int k, size_t want) {
    CHECK(n == want, "wrong-result", "call %d returned %zu items instead of %zu", k, n, want);
    char *e = malloc(12000);
    for (size_t i = 0; i < n; i++) {
        u32 l = text(e, k, (int)i + 1);
        CHECK(co[i] && co[i]->data && strlen(co[i]->data) == l && !memcmp(co[i]->data, e, l), "wrong-result", "call %d returned something else than the server gave: %.60s", k, co[i] && co[i]->data ? (char *)co[i]->data : "(null)");
    }
    free(e);
    return 1;
}
static void free_content(mcp_content_item_t **co, size_t n) { for (size_t i = 0; i < n; i++) mcp_content_item_free(co[i]); free(co); }
/* 1 if the call succeeded; a failure is checked to be allowed */
static int one_call(mcp_client_t *c, int healed) {
    int kind = (int)W(14), rd = 0, k = -1, rc = -1, ok = 0;
    kind = kind < 5 ? ECHO : kind == 5 ? FAIL : kind == 6 ? ISERR : kind == 7 ? MULTI : kind == 8 ? 5 : kind == 9 && nlist ? 6 : kind == 10 ? 7 : kind == 11 && !calm && !healed ? SLOW : kind == 12 ? 5 : ECHO;
    u64 a = sim_now(), b0 = breaks;
    int may = !calm && !healed;
    crowded++;
    if (kind <= SLOW) {
        k = newtok(kind, 0);
        if (k < 0) { crowded--; return 1; }
        char *j = malloc(24100), *e = malloc(12000), *x = malloc(24000);
        T[k].odd = (int)W(3);
        text(e, k, 0);
        quote(x, e);
        snprintf(j, 24100, "{\"a\":\"%s\"}", x);
        mcp_content_item_t **co = 0;
        size_t n = 0;
        bool ie = false;
        sim_log("call %d %s %u bytes", k, tool[kind], T[k].len);
        rc = mcp_client_call_tool(c, tool[kind], j, &co, &n, &ie);
        if (!rc) {
            CHECK(T[k].runs == 1, "not-run", "call %d succeeded though it was executed %d times", k, T[k].runs);
            if (kind == FAIL) CHECK(ie, "wrong-result", "call %d succeeded though the server refused it", k);
            else { same(co, n, k, kind == MULTI ? 3 : 1); CHECK(ie == (kind == ISERR), "wrong-result", "call %d: error mark differs", k); }
            ok = 1;
        } else if (kind == FAIL && T[k].runs) ok = 1;
        if (kind == SLOW) may = 1;
        free_content(co, n);
        free(j); free(e); free(x);
    } else if (kind == 5) {
        rd = 1;
        k = newtok(ECHO, 1);
        if (k < 0) { crowded--; return 1; }
        char uri[60];
        mcp_content_item_t **co = 0;
        size_t n = 0;
        snprintf(uri, sizeof uri, "res://tok%d", k);
        T[k].odd = (int)W(3);
        rc = mcp_client_read_resource(c, uri, &co, &n);
        if (!rc) { CHECK(T[k].runs == 1, "not-run", "read %d succeeded though it was executed %d times", k, T[k].runs); same(co, n, k, 1); ok = 1; sim_probe("read"); }
        free_content(co, n);
    } else if (kind == 6) {
        mcp_tool_t **l = 0;
        size_t n = 0;
        rc = mcp_client_list_tools(c, &l, &n);
        if (!rc) {
            ok = 1;
            CHECK((int)n == nlist, "wrong-result", "%zu tools listed, the server has %d", n, nlist);
            int seen[8] = {0}, x;
            for (size_t i = 0; i < n; i++) CHECK(l[i] && l[i]->name && sscanf(l[i]->name, "tool-%d", &x) == 1 && x >= 0 && x < nlist && !seen[x]++, "wrong-result", "tool %zu is listed as %s", i, l[i] && l[i]->name ? l[i]->name : "(null)");
            sim_probe("list");
        }
        for (size_t i = 0; i < n; i++) mcp_tool_free(l[i]);
        free(l);
    } else {
        mcp_batch_request_t rq[4];
        mcp_batch_response_t *rs = 0;
        size_t nr = 0;
        int n = (int)WR(1, 4), ks[4];
        char *par[4], *e = malloc(12000);
        for (int i = 0; i < n; i++) {
            ks[i] = newtok(W(4) ? ECHO : FAIL, 0);
            if (ks[i] < 0) { n = i; break; }
            par[i] = malloc(12100);
            T[ks[i]].odd = (int)W(2);
            text(e, ks[i], 0);
            snprintf(par[i], 12100, "{\"name\":\"%s\",\"arguments\":{\"a\":\"%s\"}}", tool[T[ks[i]].kind], e);
            rq[i] = (mcp_batch_request_t){.method = "call_tool", .params = par[i], .id = (u64)(100000 + ks[i])};
        }
        if (n) {
            rc = W(2) ? mcp_client_send_batch_request(c, rq, (size_t)n, &rs, &nr) : mcp_client_send_batch_request_optimized(c, rq, (size_t)n, &rs, &nr);
            if (!rc) {
                ok = 1;
                for (size_t i = 0; i < nr; i++) {
                    int j = 0;
                    while (j < n && rq[j].id != rs[i].id) j++;
                    CHECK(j < n, "wrong-result", "a batch returned a response with an id that is none of its own");
                    if (rs[i].error_code == MCP_ERROR_NONE && rs[i].result) {
                        CHECK(T[ks[j]].kind == ECHO && T[ks[j]].runs == 1, "wrong-result", "call %d in a batch succeeded but was executed %d times", ks[j], T[ks[j]].runs);
                        text(e, ks[j], 1);
                        CHECK(strstr(rs[i].result, e), "wrong-result", "call %d in a batch returned %.60s", ks[j], rs[i].result);
                    } else if (T[ks[j]].kind == ECHO) ok = 0;
                }
                CHECK((int)nr == n, "wrong-result", "a batch of %d returned %zu responses", n, nr);
                sim_probe("batch");
            }
            mcp_client_free_batch_responses(rs, nr);
        } else ok = 1;
        for (int i = 0; i < n; i++) free(par[i]);
        free(e);
    }
    crowded--;
    u64 d = sim_now() - a;
    sim_log("call %d -> %d (%.3f s)", k, rc, (double)d / SEC);
    if (!ok && !may) CHECK(sim_injected_since(a) > tmo * MS / 4 || breaks != b0 || healed, "failed", "call %d of kind %d failed although nothing was broken", k, kind);
    CHECK(d <= (u64)tmo * MS * (kind == 7 ? 4 : 1) + 15 * SEC + 4 * maxlat + 2 * sim_injected_since(a), "slow", "call %d took %.1f s", k, (double)d / SEC);
    if (ok && rc == 0) { sim_mark_nontrivial(); sim_probe("success"); }
    else sim_probe(ok ? "refused" : "failure");
    sim_state((u64)kind << 8 | (u64)ok << 7 | (u64)(T[k < 0 ? 0 : k].runs) << 6 | (u64)crowded << 2 | (u64)server_up << 1 | (u64)rd);
    return ok;
}
static void caller(void *a) {
    mcp_client_t *c = a;
    for (int n = (int)WR(2, 16); n > 0 && !quit; n--) {
        one_call(c, 0);
        if (W(3) == 1) sim_sleep_ns(WR(1, 200) * MS);
        if (W(30) == 1) sim_sleep_ns(WR(1, 8) * SEC);
    }
}
static void run(void) {
    sim_limit(20000 * SEC, 12000000);
    memset(T, 0, sizeof T); memset(cl, 0, sizeof cl);
    ntok = quit = nover = in_handler = crowded = 0; breaks = 0;
    calm = (int)C(3) == 1;
    sim_configure(calm ? F(DK_SPURIOUS) | F(DK_STALL) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR)
                       : F(DK_SPURIOUS) | F(DK_STALL) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_PARTITION) | F(DK_ACCEPT));
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    tmo = (u32[]){500, 1000, 3000, 10000}[C(4)];
    idle = calm ? 0 : (u32[]){0, 0, 3000, 60000}[C(4)];
    nlist = (int)C(4);
    maxlat = 4 * MS + (sim_get_rate(DK_DELAY) ? 2 * SEC : 0);
    int nc = (int)CR(1, NCL), nt = 0, t[NCL * 3];
    server_start();
    for (int i = 0; i < nc; i++) {
        mcp_reconnect_config_t rc = MCP_DEFAULT_RECONNECT_CONFIG;
        rc.initial_reconnect_delay_ms = CR(20, 1000);
        rc.max_reconnect_delay_ms = 2000;
        rc.max_reconnect_attempts = 0;
        sim_nofault_begin();
        mcp_transport_t *x = mcp_tcp_client_create_reconnect("127.0.0.1", PORT, &rc);
        CHECK(x, "setup", "the client transport could not be created");
        mcp_client_config_t cc = {.request_timeout_ms = tmo};
        cl[i] = mcp_client_create(&cc, x);
        sim_nofault_end();
        CHECK(cl[i], "setup", "the client could not be created");
        for (int k = (int)CR(1, 3); k > 0; k--) t[nt++] = sim_spawn(caller, cl[i]);
    }
    int phases = calm ? 0 : (int)CR(0, 4);
    for (int p = 0; p < phases; p++) {
        sim_sleep_ns((W(2) ? WR(1, 100) : WR(100, 3000)) * MS);
        switch (W(4)) {
        case 0:
            sim_count_fault(DK_PEER);
            server_stop();
            sim_sleep_ns(WR(1, 3000) * MS);
            server_start();
            sim_probe("server restarted");
            break;
        case 1: case 2:
            sim_count_fault(DK_PARTITION);
            breaks++;
            net_partition(1);
            sim_sleep_ns((W(2) ? WR(1, 200) : WR(200, 6000)) * MS);
            net_partition(0);
            sim_probe("partition");
            break;
        default: break;
        }
    }
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    quit = 1;
    sim_faults_off();
    /* everything works again: so do all clients */
    for (int i = 0; i < nc; i++) {
        int good = 0;
        for (int k = 0; k < 60 && good < 3; k++) { if (one_call(cl[i], 1)) good++; else { good = 0; sim_sleep_ns(SEC); } }
        CHECK(good == 3, "no-recovery", "calls still fail a minute after everything is healed");
    }
    int order = (int)C(2);
    if (order) server_stop();
    for (int i = 0; i < nc; i++) {
        u64 a = sim_now();
        mcp_client_destroy(cl[i]);
        CHECK(sim_now() - a <= 10 * SEC + 3 * sim_injected_since(a), "destroy-slow", "destroying a client took %.1f s", (double)(sim_now() - a) / SEC);
    }
    if (!order) server_stop();
    CHECK(net_open_sockets() == 0, "left-open", "%d sockets are open after both sides were stopped", net_open_sockets());
}
HARNESS(e2e, "P23", "client-server-tcp", run,
        "client library, TCP client transport with reconnection, TCP server transport, server, dispatch, handlers, resource cache, thread pool, framing, JSON",
        "network, clock, scheduler, tool and resource handlers of the application",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one call returned a result", 1)
MEMORY_HARNESS(e2e_mem, "memory-client-server-tcp", run,
        "client library, TCP client transport with reconnection, TCP server transport, server, dispatch, handlers, resource cache, thread pool, framing, JSON",
        "network, clock, scheduler, tool and resource handlers of the application", 2)
