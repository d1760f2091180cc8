/* P32: calls of the client library over the WebSocket client transport. */
#include "sim.h"
#include "lws_fake.h"
#include "mcp_client.h"
#include "mcp_websocket_transport.h"
#include "mcp_transport.h"
#include "mcp_types.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NC 400
#define NREQ 80
static mcp_client_t *cl;
static mcp_transport_t *tr;
/* ------------------------------ the server ---------------------------------- */
enum { B_OK, B_ERR, B_WRONGID, B_JUNK, B_SILENT, B_LATE, B_CLOSE, B_CUT };
static struct conn { lpeer *p; int taken, decided, closing, sending; u64 at; } K[NC];
static struct rq { char *text, *req; size_t reqlen; int seen, behave, code, conn, sent, ended, tid; u64 sent_at; } Q[NREQ];
static int nk, nq, over, up, faulty, ncallers, flapping, busy, good;
static int tids[NREQ], ntid;
#define MAXARG 90000
/* the argument of request q */
static size_t fill_of(int q) { return q % 13 == 7 ? 8000 + (size_t)(q * 7919 % 9) * 9000 : (size_t)(q * 37 % 11) * (q % 4 == 1 ? 600 : 3); }
static char fill_byte(int q, size_t i) { return text_byte((u32)i, (u32)fill_of(q), (u32)q, (char)('a' + (i + (size_t)q) % 26)); }

static void opened(lpeer *p) {
    if (nk >= NC) sim_inconclusive("too many connections");
    memset(&K[nk], 0, sizeof K[nk]);
    K[nk].p = p;
    K[nk].at = sim_now();
    nk++;
    CHECK(!strcmp(p->where, "127.0.0.1:7400/ws"), "wrong-place", "the client connects to %s", p->where);
}
static void drop(int k) { if (!K[k].closing) { K[k].closing = 1; lp_close(K[k].p); } }
static int p_free(void *a) { struct conn *c = a; return over || !c->sending; }
static int put1(int k, const char *d, size_t n, size_t upto) {
    size_t o = 0;
    int frag = (int)W(4);
    while (o < n) {
        if (over || K[k].closing || K[k].p->gone) return 0;
        size_t m = n - o;
        if (frag == 1) m = 1 + W(300);
        else if (frag == 2) m = 4090 + W(7);
        else if (frag == 3 && W(3) == 1) { lp_send(K[k].p, "", 0, 0); sim_probe("empty-fragment"); }
        if (m > 4096) m = 4096;
        if (m > n - o) m = n - o;
        if (o + m > upto) m = upto - o;
        if (!m) return 0;
        int last = o + m == n;
        if (last && frag == 3 && W(2)) { lp_send(K[k].p, d + o, m, 0); lp_send(K[k].p, "", 0, 1); }
        else lp_send(K[k].p, d + o, m, last);
        o += m;
        if (W(8) == 1) sim_sleep_ns(WR(1, 40) * MS);
    }
    return 1;
}
/* a message in one or several frames, each handed over in one or several pieces */
static int put(int k, const char *d, size_t n, size_t upto) {
    while (!sim_wait_until(p_free, &K[k], 10 * SEC));
    K[k].sending = 1;
    int r = put1(k, d, n, upto);
    K[k].sending = 0;
    return r;
}
static void answer(void *a) {
    int q = (int)(long)a;
    struct rq *r = &Q[q];
    u64 id = 0, d = 0;
    /* the id of the request is the one outside the parameters, which hold "id":"..." themselves */
    for (char *p = r->req; (p = strstr(p, "\"id\":")); p += 5) if (p[5] >= '0' && p[5] <= '9') id = strtoull(p + 5, 0, 10);
    CHECK(id, "bad-request", "request %d has no id", q);
    int b = r->behave;
    switch (W(4)) { case 0: d = WR(1, 20) * MS; break; case 1: d = WR(1, 6000) * MS; break; default: break; }
    if (b == B_LATE) d = WR(9000, 20000) * MS;
    for (u64 t = sim_now() + d; sim_now() < t && !over;) sim_sleep_ns(t - sim_now() < 500 * MS ? t - sim_now() : 500 * MS);
    if (over) goto out;
    sim_log("server: answers request %d, behaviour %d", q, b);
    if (b == B_SILENT) goto out;
    if (b == B_CLOSE) { sim_count_fault(DK_PEER); drop(r->conn); goto out; }
    char *e = malloc(54000), *m = malloc(60000);
    json_escape(e, 54000, r->text, strchr(r->text, '\xc3') && strlen(r->text) < 8000 ? (int)W(4) : 0);
    if (b == B_WRONGID) id += 100000 + W(3);
    if (b == B_ERR) snprintf(m, 60000, "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":%d,\"message\":\"%s\"},\"id\":%llu}", r->code, e, (unsigned long long)id);
    else if (b == B_JUNK) { static const char *j[] = {"x", "not json", "{", "[]", "null", "{\"jsonrpc\":\"2.0\"}", "{}}", "\"x\""}; strcpy(m, j[W(8)]); }
    else if (W(2)) snprintf(m, 60000, "{\"id\":%llu,\"jsonrpc\":\"2.0\",\"result\":{\"content\":[{\"type\":\"text\",\"text\":\"%s\"}],\"isError\":false}}", (unsigned long long)id, e);
    else snprintf(m, 60000, "{\"jsonrpc\":\"2.0\",\"result\":{\"id\":%u,\"content\":[{\"type\":\"text\",\"text\":\"%s\"}],\"isError\":false},\"id\":%llu}", W(9), e, (unsigned long long)id);
    size_t n = strlen(m);
    if (b == B_CUT) { put(r->conn, m, n, n > 2 ? 1 + W((u32)n - 1) : 1); sim_count_fault(DK_PEER); drop(r->conn); sim_probe("cut inside a message"); }
    else if (put(r->conn, m, n, n)) { r->sent = 1; r->sent_at = sim_now(); }
    free(e); free(m);
out:
    r->ended = 1;
    busy--;
}
static void take(int k) {
    struct lmsg *m = &K[k].p->msg[K[k].taken++];
    char *t = strstr(m->data, "tok");
    CHECK(m->len > 4 && m->len == strlen(m->data) && t && m->data[0] == '{' && m->data[m->len - 1] == '}', "bad-request", "the server got %u bytes: %.60s", (u32)m->len, m->data);
    int q = atoi(t + 3);
    CHECK(q >= 0 && q < nq, "bad-request", "the server got request %d, there are %d", q, nq);
    struct rq *r = &Q[q];
    CHECK(!r->seen, "sent-twice", "request %d arrives twice", q);
    r->seen = 1;
    r->conn = k;
    r->req = m->data;
    char want[60];
    size_t fill = fill_of(q), have = 0;
    snprintf(want, sizeof want, "\"fill%d\":\"", q);
    char *f = strstr(m->data, want);
    if (f) {
        for (f += strlen(want); have < fill && *f == fill_byte(q, have); f++) have++;
        CHECK(*f == '"' && have == fill, "bad-request", "request %d arrives changed: %u of %u bytes of its argument", q, (u32)have, (u32)fill);
    }
    sim_log("server: request %d on connection %d, behaviour %d", q, k, r->behave);
    busy++;
    tids[ntid++] = sim_spawn(answer, (void *)(long)q);
}
static int due(int k) {
    lpeer *p = K[k].p;
    if (p->gone) return 0;
    if (!K[k].decided) return 1;
    return K[k].taken < p->nmsg;
}
static int p_any(void *a) { (void)a; if (over) return 1; for (int k = 0; k < nk; k++) if (due(k)) return 1; return 0; }
static void server(void *a) {
    (void)a;
    while (!over) {
        if (!sim_wait_until(p_any, 0, 500 * MS)) {
            /* the library gives up connections nobody accepts */
            for (int k = 0; k < nk; k++) if (K[k].decided == 2 && !K[k].p->gone && sim_now() - K[k].at > 5 * SEC) drop(k);
            continue;
        }
        if (over) break;
        for (int k = 0; k < nk && !over; k++) if (due(k)) {
            if (!K[k].decided) {
                K[k].decided = 1;
                if (!up) { sim_count_fault(DK_REFUSE); drop(k); }
                else if (faulty && sim_fault(DK_REFUSE)) { sim_count_fault(DK_REFUSE); drop(k); }
                else if (faulty && sim_fault(DK_CONN_TIMEOUT)) { sim_count_fault(DK_CONN_TIMEOUT); K[k].decided = 2; }
                else {
                    if (W(4) == 1) sim_sleep_ns(WR(1, 400) * MS);
                    lp_upgrade(K[k].p);
                    if (flapping && W(3)) { sim_count_fault(DK_PEER); drop(k); }
                }
            } else take(k);
        }
    }
}
/* ------------------------------ the callers ---------------------------------- */
static char *mk_text(int q) {
    static const char *odd[] = {"plain", "a } brace", "{ open", "\"id\":7,", "back\\slash \\\" {", "\xc3\xa9\xe2\x82\xac\xef\xbc\xa1 \b\f\t\r\n/", "line\nbreak", "[1,2]", "\\", "\""};
    char *t = malloc(26000);
    snprintf(t, 200, "V%d %s", q, odd[W(10)]);
    if (W(5) == 1) { size_t l = strlen(t); u32 n = W(2) ? WR(100, 20000) : 4096 * WR(1, 3) - 130 + W(80); for (u32 i = 0; i < n; i++) t[l + i] = i % 61 == 60 ? '}' : (char)('a' + i % 26); t[l + n] = 0; }
    return t;
}
/* nothing a server still has to say about earlier calls is on its way */
static int settled(void) {
    if (busy) return 0;
    for (int k = 0; k < nk; k++) if (!K[k].p->gone && K[k].p->handled != K[k].p->queued) return 0;
    return 1;
}
static void one_call(int must) {
    if (nq >= NREQ) return;
    int q = nq++;
    struct rq *r = &Q[q];
    memset(r, 0, sizeof *r);
    r->text = mk_text(q);
    r->conn = -1;
    r->behave = must || W(3) ? B_OK : (int)W(8);
    r->code = -32000 - (int)W(90);
    char nm[24], *arg = malloc(MAXARG), *em = 0, *res = 0;
    snprintf(nm, sizeof nm, "tok%d", q);
    size_t fill = fill_of(q);
    int l = snprintf(arg, MAXARG, "{\"id\":\"x%u\",\"fill%d\":\"", (u32)fill, q);
    for (size_t i = 0; i < fill; i++) arg[l++] = fill_byte(q, i);
    strcpy(arg + l, "\"}");
    int calm = settled();
    u64 failed0 = sim_alloc_failed_any();
    u64 a = sim_now();
    mcp_error_code_t ec = 0;
    int rc;
    sim_log("call %d starts (behaviour %d)", q, r->behave);
    if (W(2) && fill < 7000) {
        mcp_content_item_t **co = 0; size_t n = 0; bool ie = 0;
        rc = mcp_client_call_tool(cl, nm, W(3) ? arg : 0, &co, &n, &ie);
        if (!rc) {
            CHECK(n == 1 && co && co[0] && !ie, "wrong-response", "call %d: %u items instead of 1", q, (u32)n);
            CHECK(!strcmp((char *)co[0]->data, r->text), "wrong-response", "call %d got %.50s, the server sent %.50s", q, (char *)co[0]->data, r->text);
            for (size_t i = 0; i < n; i++) mcp_content_item_free(co[i]);
            free(co);
        }
    } else {
        char *p = malloc(MAXARG + 100);
        snprintf(p, MAXARG + 100, "{\"name\":\"%s\",\"arguments\":%s}", nm, arg);
        rc = mcp_client_send_request(cl, "call_tool", p, &res, &ec, &em);
        free(p);
        if (!rc) {
            CHECK(res, "wrong-response", "call %d succeeded without a result", q);
            char *v = strstr(res, "\"V");
            CHECK(v && atoi(v + 2) == q, "wrong-response", "call %d got the result %.60s", q, res);
            if (!strpbrk(r->text, "\"\\\n\xc3")) {
                char *w = malloc(30000);
                snprintf(w, 30000, "\"%s\"", r->text);
                CHECK(strstr(res, w), "wrong-response", "the result of call %d is not the one sent: %.60s", q, res);
                free(w);
            }
        }
        if (em && em[0] == 'V') CHECK(r->behave == B_ERR && !strcmp(em, r->text) && (int)ec == r->code, "wrong-response", "call %d got the error %d %.50s", q, (int)ec, em);
    }
    sim_log("call %d ends: %d", q, rc);
    int clean = calm && ncallers == 1 && !sim_injected_since(a) && sim_alloc_failed_any() == failed0;
    if (!rc) {
        CHECK(r->behave == B_OK || r->behave == B_LATE, "wrong-response", "call %d succeeded though the server sent no response to it", q);
        sim_mark_nontrivial();
        good++;
    } else if (clean && r->conn >= 0 && r->conn < NC && !K[r->conn].closing && !K[r->conn].p->broken && K[r->conn].p->w && !K[r->conn].p->w->broken) {
        if (r->behave == B_OK) CHECK(!(r->sent && r->sent_at + 300 * MS < a + 10 * SEC), "good-response-lost", "call %d failed (%d %.40s) though the server answered it after %.1f s", q, (int)ec, em ? em : "", (double)(r->sent_at - a) / SEC);
        if (r->behave == B_ERR && em) CHECK(em[0] == 'V', "good-response-lost", "call %d got %d %.40s instead of the server's error", q, (int)ec, em);
        if (r->behave == B_OK) CHECK(sim_now() - a > 9 * SEC, "failed-for-nothing", "call %d failed (%d %.40s) after %.1f s though nothing was wrong", q, (int)ec, em ? em : "", (double)(sim_now() - a) / SEC);
    }
    if (must) CHECK(!rc, "not-recovered", "call %d fails (%d %.40s) though the server has been reachable for two minutes", q, (int)ec, em ? em : "");
    u64 d = sim_now() - a, inj = sim_injected_since(a);
    CHECK(d <= 26 * SEC + 4 * inj, "call-slow", "call %d took %.1f s", q, (double)d / SEC);
    free(em); free(res); free(arg);
}
static void caller(void *a) {
    (void)a;
    int n = (int)WR(1, 9);
    sim_nofault_begin();
    mcp_arena_init_current_thread(4096);
    sim_nofault_end();
    for (int i = 0; i < n; i++) {
        if (W(3) == 1) sim_sleep_ns((W(4) ? WR(1, 400) : WR(400, 9000)) * MS);
        one_call(0);
        mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}
static int running;
static void chaos(void *a) {
    (void)a;
    while (running) {
        sim_sleep_ns((W(3) ? WR(1, 900) : WR(900, 20000)) * MS);
        if (!running) break;
        switch (W(6)) {
        case 0: case 1:
            for (int k = nk - 1; k >= 0; k--) if (!K[k].p->gone && K[k].p->established) { sim_count_fault(DK_PEER); if (W(2)) K[k].p->broken = 1; drop(k); break; }
            break;
        case 2:
            up = 0;
            for (int k = 0; k < nk; k++) if (!K[k].p->gone) drop(k);
            sim_sleep_ns((W(3) ? WR(10, 3000) : WR(3000, 60000)) * MS);
            up = 1;
            sim_probe("server away");
            break;
        case 3: flapping = 1; sim_sleep_ns(WR(10, 9000) * MS); flapping = 0; sim_probe("flapping server"); break;
        default: break;
        }
    }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(9000 * SEC, 6000000);
    lws_fake_strict = 1;
    sim_configure(F(DK_STALL) | F(DK_SPURIOUS) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_RESET) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_OOM));
    nk = nq = over = flapping = busy = ntid = good = 0;
    up = 1;
    faulty = 1;
    lws_fake_ctx_live = 0;
    lws_fake_on_client = opened;
    ncallers = C(4) ? 1 : (int)CR(2, 4);
    int troubled = (int)C(3);
    if (C(5) == 1) up = 0;
    int sv = sim_spawn(server, 0), ch = -1, tid[4];
    mcp_websocket_config_t wc = {.host = "127.0.0.1", .port = 7400, .path = W(2) ? "/ws" : "ws", .connect_timeout_ms = C(2) ? 5000 : 0};
    sim_nofault_begin();
    tr = mcp_transport_websocket_client_create(&wc);
    CHECK(tr, "create-failed", "the transport could not be created");
    mcp_client_config_t cc = {.request_timeout_ms = 3000};
    cl = mcp_client_create(&cc, tr);
    sim_nofault_end();
    CHECK(cl, "create-failed", "the client could not be created");
    running = 1;
    if (!up) { sim_sleep_ns(WR(1, 9000) * MS); up = 1; }
    if (troubled) ch = sim_spawn(chaos, 0);
    for (int i = 0; i < ncallers; i++) tid[i] = sim_spawn(caller, 0);
    for (int i = 0; i < ncallers; i++) {
        u64 a = sim_now();
        int ok = 0;
        for (int k = 0; k < 200 && !ok; k++) ok = sim_join_for(tid[i], 5 * SEC);
        CHECK(ok, "call-stuck", "a call does not return for %.0f s", (double)(sim_now() - a) / SEC);
    }
    running = 0;
    if (ch >= 0) sim_join(ch);
    if (C(3)) {
        /* once the server is well again, calls work again */
        sim_faults_off();
        ncallers = 1;
        sim_sleep_ns(130 * SEC);
        sim_nofault_begin();
        mcp_arena_init_current_thread(4096);
        sim_nofault_end();
        for (int i = (int)WR(1, 3); i; i--) { one_call(1); mcp_arena_reset_current_thread(); }
        CHECK(nq >= NREQ || mcp_client_is_connected(cl) == 1, "state-wrong", "the client does not call itself connected after a successful call");
        mcp_arena_destroy_current_thread();
        sim_probe("recovered");
    }
    u64 a = sim_now();
    mcp_client_destroy(cl);
    u64 d = sim_now() - a, inj = sim_injected_since(a);
    CHECK(d <= 33 * SEC + 4 * inj, "stop-slow", "destroying the client took %.1f s", (double)d / SEC);
    CHECK(lws_fake_ctx_live == 0, "left-over", "the connection's library context outlives the client");
    over = 1;
    sim_join(sv);
    for (int i = 0; i < ntid; i++) sim_join(tids[i]);
    lp_free_all();
    lws_fake_on_client = 0;
    for (int i = 0; i < nq; i++) free(Q[i].text);
    sim_state((u64)(nk > 30 ? 30 : nk) * 100 + (u64)good);
}
#define REAL "client library, WebSocket client transport with its event thread, reconnection and buffers, JSON"
#define STUB "libwebsockets (an event-driven model of its client side), the server, clock, threads, allocation"
HARNESS(ws_client, "P32", "websocket-client", run, REAL, STUB, "a call returned with the response to its own request", 1)
MEMORY_HARNESS(ws_client_mem, "memory-websocket-client", run, REAL, STUB, 1)
